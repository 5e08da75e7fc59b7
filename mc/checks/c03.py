"""C03: literal text fidelity, positions and order, for all texts up to a bound."""
from mc import adapter as a, core, pools, spec

NAMES = [''.join(t) for t in core.strings(('h', '%', 's', '['), 3, 1)]
# every possible variable name is supplied, its text is recognisable and itself looks like template syntax
MODEL = {name: spec.text_form('<%s>%%s[h]' % name) for name in NAMES}
# texts of inserted forms that must not influence anything around them
ODD = {'e': '', 's': ' ', 'w': ' a  b ', 'n': '\n', 'p': '%', 'v': '[h]', 'c': 'ab', 'd': '%s%%'}
ODD_MODEL = {name: spec.text_form(text) for name, text in ODD.items()}
ODD_MODEL['i'] = spec.F(spec.W('NOUN', ['i%d' % i for i in range(18)]))
ODD_MODEL['j'] = spec.F(spec.W('NOUN', ['j%d' % i for i in range(18)]), {'CASE': 'DATIVE', 'NUMBER': 'PLURAL'})
# texts of words that mean something to formatting, to regular expressions or to the parser itself
MARKUP = {'b': '\\1\\g<0>\\n', 'f': '{0}{h}{', 'o': '[', 'q': ']x[h', 'r': '%(h)s %d %', 'u': '\\', 'g': '$1 ${h}', 'k': '[c]'}
ODD_MODEL.update({name: spec.text_form(text) for name, text in MARKUP.items()})
MARKUP_PIECES = tuple('[%s]' % name for name in MARKUP) + ('[c]', '%', 'x')
ODD_PIECES = ('[e]', '[s]', '[w]', '[n]', '[p]', '[v]', '[c]', '[d]', '[i]', '[i|рд]', '[i|дт]', '[i|j]', '[I|рд]', '[j]', '[j|рд]', '[j|i|рд]', ' ', '  ', 'x', '.', ',', '\n', '%')
PIECES = ('[h]', '[%]', '[s|h]', '%', '%s', '%(h)s', '%%', '[]', 'x', '{0}', '\\1', ']', '[', '%d', '\n')


ODD_CHARS = ['\x00', '\x01', '\x1b', '\x7f', '\x85', '\xa0', '\xad', '\u0301', '\u0430\u0301', '\u0451', '\u0435\u0308', '\u200b', '\u200d', '\u202e', '\u2028', '\ufeff', '\ufffd', '\uffff',
             '\ud83d', '\ude00', '\ud83d\ude00', '\U0001f600', '\U0010ffff', '\r', '\r\n', '\t', '\x0b', '\x0c', "'", '"', '`', '<b>', '&amp;', '$x', '${x}', '{}', '{x}', '\\u0041', '%%', '%(x)s', '#', '@']


class Check_(core.Check):
    id = 'C03'
    rule = ('every text over the alphabet up to the length bound is a state; it is parsed and substituted by the real '
            'code and by the character automaton of the model')
    BOUNDS = {'quick': {'A': 8, 'B': 6, 'pieces': 5, 'odd': 4, 'markup': 4, 'unicode': 0x10000},
              'thorough': {'A': 10, 'B': 7, 'pieces': 6, 'odd': 5, 'markup': 6, 'unicode': 0x110000}}
    COUNTS = {'quick': list(range(2, 45)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257],
              'thorough': range(2, 1100)}
    ALPHABETS = {'A': 'h%s[]', 'B': 'h|%[]\n {\\', 'pieces': PIECES, 'odd': ODD_PIECES, 'markup': MARKUP_PIECES}

    def prepare(self, tier):
        self.externals = {name: a.form(f) for name, f in MODEL.items()}
        self.odd = {name: a.form(f) for name, f in ODD_MODEL.items()}
        self.dictionary = a.make_dictionary([])
        self.model_dictionary = spec.D()

    def shards(self, tier):
        bounds = self.BOUNDS[tier]
        for kind, alphabet in self.ALPHABETS.items():
            yield {'kind': kind, 'prefix': None}
            for x in range(len(alphabet)):
                for y in range(len(alphabet)):
                    yield {'kind': kind, 'prefix': [x, y], 'length': bounds[kind]}
        for lo, hi in core.chunks(8, len(self.COUNTS[tier])):
            yield {'kind': 'many', 'range': [lo, hi]}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'kind': 'named', 'range': [lo, hi]}
        for lo, hi in core.chunks(16, bounds['unicode']):
            yield {'kind': 'unicode', 'range': [lo, hi]}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'named':
            for i in range(*shard['range']):
                ctx.run({'named': pools.NAMES[i], 'beside': pools.FEW[i % len(pools.FEW)]})
            return
        if kind == 'unicode':
            for code in range(*shard['range']):
                c = chr(code)
                ctx.run('%s[h]%s%s[s]' % (c, c, c))
                ctx.run({'inserted': code})
            return
        if kind == 'many':
            # size, not shape: many substitutions, many different variables, long literals around one
            for n in list(self.COUNTS[ctx.tier])[slice(*shard['range'])]:
                for x, p in enumerate(PIECES):
                    ctx.run(p * n)
                    ctx.run(('[h]' + p) * n + '[%]')
                    ctx.run('[h]' + p * n + '[%]' + p * (n // 2) + '[h]')
                    ctx.run(''.join(PIECES[(x + i * 7) % len(PIECES)] for i in range(n)))
                for x, p in enumerate(ODD_PIECES):
                    ctx.run({'odd': p * n})
                    ctx.run({'odd': ''.join(ODD_PIECES[(x + i * 5) % len(ODD_PIECES)] for i in range(n))})
                for p in ('x', '%', '%s', '[', ']', '%d', '{0}', '\n', '\u0416'):
                    for size in (n, n * 50, n * n + n):
                        ctx.run({'odd': p * size + '[c]' + p * size + '[i|\u0440\u0434]' + p})
                for style in range(4):
                    ctx.run({'names': n, 'style': style})
                # every odd character at every distance from the start and the end, in front of and behind a variable
                for c in ODD_CHARS:
                    for size in (n, n * 11, n * n):
                        ctx.run({'odd': 'x' * size + c + 'x' * n})
                        ctx.run({'odd': '[c]' + 'x' * size + c + '[i|\u0440\u0434]' + 'x' * n + c})
                        ctx.run({'odd': c + 'x' * size})
            return
        alphabet = self.ALPHABETS[kind]
        wrap = (lambda text: {'odd': text}) if kind in ('odd', 'markup') else (lambda text: text)
        if shard['prefix'] is None:
            for t in core.strings(alphabet, 1):
                ctx.run(wrap(''.join(t)))
            return
        prefix = ''.join(alphabet[i] for i in shard['prefix'])
        for t in core.strings(alphabet, shard['length'] - 2):
            ctx.run(wrap(prefix + ''.join(t)))

    def run_case(self, case, ctx):
        ctx.state()
        ctx.step()
        if isinstance(case, dict) and 'names' in case:
            return self.names(case, ctx)
        if isinstance(case, dict) and 'inserted' in case:
            return self.inserted(case, ctx)
        if isinstance(case, dict) and 'named' in case:
            return self.named(case, ctx)
        text = case['odd'] if isinstance(case, dict) else case
        model, real = (ODD_MODEL, self.odd) if isinstance(case, dict) else (MODEL, self.externals)
        expected = a.model_outcome(lambda: spec.T(text, model).substitute(model, self.model_dictionary))
        ctx.outcome(expected[0] if expected[0] == 'ok' else expected[1])
        a.compare('text generated from %r' % text, expected,
                  a.outcome(lambda: a.template(text, real).substitute(real, self.dictionary)), subject=False)

    def inserted(self, case, ctx):
        """a character of the inserted texts, at their start, inside and at their end"""
        c = chr(case['inserted'])
        texts = {'x': c, 'y': c + 'а' + c, 'z': 'б%sв' % c}
        real = {name: a.form(spec.text_form(text)) for name, text in texts.items()}
        t = a.template('[x] [y][z]%[y]', real)
        a.compare('text with %r in words' % c, ('ok', '%s %s%s%%%s' % (texts['x'], texts['y'], texts['z'], texts['y'])),
                  a.outcome(lambda: t.substitute(real, self.dictionary)), subject=False)

    def named(self, case, ctx):
        """a variable with an odd name, in front of, between and behind literal text, beside another one"""
        one, two = case['named'], case['beside']
        model = {one: spec.text_form('п%sй' % one), two: spec.text_form(one), 'z': spec.text_form('')}
        real = {name: a.form(f) for name, f in model.items()}
        for text in ('%s[{1}]%d', '[{1}]{1}[{2}]{2}[{1}|{2}]%', '[z]{1}[z|{1}][{2}][z]', '[ {1} |{2}| {1} ][{1}|z]\n'):
            text = text.replace('{1}', one).replace('{2}', two)
            ctx.step()
            expected = a.model_outcome(lambda: spec.T(text, model).substitute(model, self.model_dictionary))
            t = a.template(text, real)
            a.compare('text generated from %r' % text, expected, a.outcome(lambda: t.substitute(real, self.dictionary)), subject=False)

    def names(self, case, ctx):
        """n different variables, in four arrangements"""
        n = case['names']
        names = ['v%d' % i for i in range(n)]
        model = {name: spec.text_form('<%s>' % name) for name in names}
        real = {name: a.form(f) for name, f in model.items()}
        order = {0: names, 1: names[::-1], 2: names + names[::-1], 3: [names[i * i % n] for i in range(2 * n)]}[case['style']]
        text = ''.join('%d[%s]' % (i, name) for i, name in enumerate(order)) + '%'
        expected = a.model_outcome(lambda: spec.T(text, model).substitute(model, self.model_dictionary))
        ctx.outcome(expected[0])
        t = a.template(text, real)
        a.compare('text with %d variables' % n, expected, a.outcome(lambda: t.substitute(real, self.dictionary)))
        again = a.templates.Template.deserialize(t.serialize())
        a.compare('text with %d variables after storing' % n, expected, a.outcome(lambda: again.substitute(real, self.dictionary)))

    def shrink(self, case):
        if isinstance(case, dict) and 'names' in case:
            for n in range(2, case['names']):
                yield dict(case, names=n)
            return
        if isinstance(case, dict) and ('inserted' in case or 'named' in case):
            return
        text = case['odd'] if isinstance(case, dict) else case
        for i in range(len(text)):
            smaller = text[:i] + text[i + 1:]
            yield {'odd': smaller} if isinstance(case, dict) else smaller
