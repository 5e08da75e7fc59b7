"""C05: tolerant and strict parsing, atomic re-parsing."""
import itertools

from mc import adapter as a, core, pools, spec

EXTERNALS = {'h': spec.F(spec.W('NOUN', ['н%d' % i for i in range(18)], {'GENDER': 'FEMININE'})),
             'number': spec.integer(5)}
WORDS = [spec.W('ADJECTIVE', ['п%d' % i for i in range(101)]), spec.W('TEXT', ['два слова'])]

INNER = ['h', 'H', 'п1', 'П1', 'вн', 'ВН', 'мн', 'зз', '|', ',', ' ', '\t']
OUTER = ['[', ']', 'h', '|', 'вн', ',', ' ', 'q']
SPACES = ['', ' ', '\t', '\n', ' \u00a0']
PARSES = ['', 'x', '[h]', '[h|вн] %', '[П1|h|мн] [h]', '[ ]', '[h][|]', '[h|зз]', '[п1] [h|зз] [h]', '[h] [q|h]',
          '[number] [п1|number|тв]', 'a[h]b[number]c', '[h|рд', '%s[h]%s']


KNOWN = ['рд', 'зз', 'мн,рд']
KNOWN_TEXTS = ['[h|рд]', '[h|зз]', '[h|мн,рд]', '[h|дт|рд|мн]', '[H|Зз|мн] [h|зз|рд]', '[рд|мн]', '[зз]', '[h|мн,рд|рд|зз]']


class Check_(core.Check):
    id = 'C05'
    rule = ('states: every token string inside brackets and around brackets up to the bound, every spacing/case variant of '
            'well formed substitutions, every sequence of parses on one object')
    BOUNDS = {'quick': {'inner': 5, 'outer': 6, 'parses': 3}, 'thorough': {'inner': 6, 'outer': 8, 'parses': 5}}

    def prepare(self, tier):
        self.externals = {name: a.form(f) for name, f in EXTERNALS.items()}
        self.model_dictionary = spec.D(WORDS)
        self.dictionary = a.make_dictionary(WORDS)

    def shards(self, tier):
        b = self.BOUNDS[tier]
        for kind, alphabet in (('inner', INNER), ('outer', OUTER)):
            yield {'kind': kind, 'prefix': None}
            for x, y in itertools.product(range(len(alphabet)), repeat=2):
                yield {'kind': kind, 'prefix': [x, y], 'length': b[kind]}
        for x in range(len(SPACES)):
            yield {'kind': 'spaces', 'first': x}
        for x in range(len(PARSES)):
            yield {'kind': 'parses', 'first': x, 'length': b['parses']}
        yield {'kind': 'case'}
        for lo, hi in core.chunks(16, 0x3100 if tier == 'quick' else 0x110000):
            yield {'kind': 'characters', 'range': [lo, hi]}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'kind': 'named', 'range': [lo, hi]}
        for i in range(8):
            yield {'kind': 'long', 'part': i}
        yield {'kind': 'known'}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind in ('inner', 'outer'):
            alphabet = INNER if kind == 'inner' else OUTER
            wrap = '[%s]' if kind == 'inner' else '%s'
            if shard['prefix'] is None:
                for t in core.strings(alphabet, 1):
                    ctx.run({'text': wrap % ''.join(t)})
                return
            prefix = ''.join(alphabet[i] for i in shard['prefix'])
            for t in core.strings(alphabet, shard['length'] - 2):
                ctx.run({'text': wrap % (prefix + ''.join(t))})
        elif kind == 'spaces':
            s0 = SPACES[shard['first']]
            for s in itertools.product(SPACES, repeat=5):
                # spaces around name, variable, and both identifiers of a list
                ctx.run({'same': ['[п1|h|вн,мн]', '[%sп1%s|%sh%s|%sвн%s,%sмн%s]' % (s0, s[0], s[1], s[2], s[3], s[4], s[0], s[1])]})
                ctx.run({'same': ['[два слова|h]', '[%sдва слова%s|%sh%s|%s|%s,%s]' % (s0, s[0], s[1], s[2], s[3], s[4], s[0])]})
        elif kind == 'characters':
            # every character next to, inside and instead of names and identifiers: spaces are ignored, nothing else is
            for code in range(*shard['range']):
                c = chr(code)
                for text in ('[%sh%s|%sмн%s,%sвн%s]' % ((c,) * 6), '[h|м%sн]' % c, '[h%sh]' % c, '[%s]' % c, '[h|%s]' % c, '[%s|h]' % c,
                             '[h|h%s]' % c, '[п1|h%s|мн]' % c, 'h]%s[h' % c):
                    ctx.run({'text': text})
        elif kind == 'long':
            identifiers = [spec.VERBOSE[v] for v in spec.VALUES]
            for n in range(1, 80):
                for start in range(shard['part'], len(identifiers), 8):
                    chosen = [identifiers[(start + i) % len(identifiers)] for i in range(n)]
                    lists = '|'.join(','.join(chosen[i:i + 3]) for i in range(0, n, 3))
                    ctx.run({'same': ['[п1|%s]' % ','.join(chosen), '[ п1 | %s ]' % ' , '.join(chosen).upper()]})
                    ctx.run({'same': ['[п1|%s]' % ','.join(chosen), '[п1|%s]' % '|'.join(chosen)]})
                    ctx.run({'same': ['[п1|%s]' % ','.join(chosen), '[п1|%s]' % lists]})
                    ctx.run({'same': ['[п1|%s]' % ','.join(chosen), '[п1%s|,,%s,,%s]' % ('|' * n, (',' * n).join(chosen), '|' * n)]})
                    if start < 16:
                        # one unknown identifier at every position of a long list
                        for i in range(n + 1):
                            ctx.run({'text': '[п1|%s]' % ','.join(chosen[:i] + ['зз'] + chosen[i:])})
                            ctx.run({'text': '[п1|%s]' % '|'.join(chosen[:i] + ['зз'] + chosen[i:])})
        elif kind == 'known':
            # the variables known at parsing change between the parses, in the same container
            for names in itertools.product(range(8), repeat=3 if ctx.tier == 'quick' else 4):
                for container in ('list', 'set', 'dict', 'new list', 'new set', 'new dict'):
                    for t in range(len(KNOWN_TEXTS)):
                        ctx.run({'known': list(names), 'container': container, 'of': t})
        elif kind == 'named':
            for i in range(*shard['range']):
                ctx.run({'named': pools.NAMES[i], 'beside': pools.FEW[i * 11 % len(pools.FEW)]})
        elif kind == 'case':
            for v in spec.VALUES:
                ident = spec.VERBOSE[v]
                for variant in sorted({''.join(c) for c in itertools.product(*[(x.lower(), x.upper()) for x in ident])}):
                    ctx.run({'same': ['[h|%s]' % ident, '[h|%s]' % variant]})
                    ctx.run({'same': ['[п1|h|%s]' % ident, '[п1|H|%s]' % variant]})
            for upper in ('ДВА СЛОВА', 'Два Слова', 'ДВА слова', 'Два слова'):
                ctx.run({'same': ['[Два слова|h]', '[%s|H]' % upper]})
            for lower in ('дВА СЛОВА', 'два Слова', 'дВа слова'):
                ctx.run({'same': ['[два слова]', '[%s]' % lower]})
        else:
            for n in range(0, shard['length']):
                for rest in itertools.product(range(len(PARSES)), repeat=n):
                    ctx.run({'parses': [shard['first']] + list(rest)})

    def run_case(self, case, ctx):
        ctx.state()
        if 'named' in case:
            self.named(case, ctx)
        elif 'known' in case:
            self.known(case, ctx)
        elif 'text' in case:
            self.check_text(case['text'], ctx)
        elif 'same' in case:
            one, two = case['same']
            self.check_text(one, ctx)
            self.check_text(two, ctx)
            a.equal('%r means the same as %r' % (two, one), self.generate(one), self.generate(two))
        else:
            self.check_parses([PARSES[i] for i in case['parses']], ctx)

    def named(self, case, ctx):
        """odd names: a variable of that name or not, read, re-read and read again without it"""
        one, two = case['named'], case['beside']
        every = {'h': EXTERNALS['h'], two: EXTERNALS['number'], one: spec.F(spec.W('NOUN', ['о%d' % i for i in range(18)]), {'CASE': 'DATIVE', 'NUMBER': 'PLURAL'})}
        real = {'h': self.externals['h'], two: self.externals['number'], one: a.form(every[one])}
        for text in ('[h|%s]' % one, '[%s|h]' % one, '[h|%s,%s]' % (one, two), '[h|%s|%s]' % (two, one), '[ %s |\t%s |мн]' % (one.upper() if one.upper().lower() == one else one, one)):
            template = None
            for names in (['h'], ['h', one], ['h', two], ['h', two, one]):
                ctx.step()
                model = a.model_outcome(lambda: spec.T(text, names))
                got = a.outcome(lambda: a.template(text, names))
                if model[0] == 'err' or got[0] == 'err':
                    a.compare('parse of %r with %s' % (text, names), model, got)
                    continue
                expected = a.model_outcome(lambda: model[1].substitute(every, self.model_dictionary))
                a.compare('text generated from %r with %s' % (text, names), expected, a.outcome(lambda: got[1].substitute(real, self.dictionary)))
                template = template or a.templates.Template()
                template.parse(text, externals=names)
                a.equal('re-parsed template', got[1].serialize(), template.serialize())

    def known(self, case, ctx):
        forms = dict(EXTERNALS, **{name: EXTERNALS['number'] for name in KNOWN})
        real = dict(self.externals, **{name: self.externals['number'] for name in KNOWN})
        container = {'list': [], 'set': set(), 'dict': {}}[case['container'].split()[-1]]
        text = KNOWN_TEXTS[case['of']]
        for mask in case['known']:
            names = ['h'] + [name for i, name in enumerate(KNOWN) if mask >> i & 1]
            if 'new' in case['container']:
                container = type(container)()
            container.clear()
            container.extend(names) if isinstance(container, list) else container.update({name: real[name] for name in names})
            ctx.step()
            model = a.model_outcome(lambda: spec.T(text, names))
            got = a.outcome(lambda: a.template(text, container))
            if model[0] == 'err' or got[0] == 'err':
                a.compare('parse of %r with %s' % (text, names), model, got)
                continue
            expected = a.model_outcome(lambda: model[1].substitute(forms, self.model_dictionary))
            a.compare('text generated from %r with %s' % (text, names), expected, a.outcome(lambda: got[1].substitute(real, self.dictionary)))

    def generate(self, text):
        return a.outcome(lambda: a.template(text, self.externals).substitute(self.externals, self.dictionary))[:2]

    def check_text(self, text, ctx):
        ctx.step()
        parsed = a.model_outcome(lambda: spec.T(text, EXTERNALS))
        ctx.outcome(parsed[0] if parsed[0] == 'ok' else parsed[1])
        got = a.outcome(lambda: a.template(text, self.externals))
        if parsed[0] == 'err' or got[0] == 'err':
            a.compare('parse of %r' % text, parsed, got)
            return
        expected = a.model_outcome(lambda: parsed[1].substitute(EXTERNALS, self.model_dictionary))
        a.compare('text generated from %r' % text, expected,
                  a.outcome(lambda: got[1].substitute(self.externals, self.dictionary)))

    def check_parses(self, texts, ctx):
        template = a.templates.Template()
        current = None       # text the object must behave as
        for text in texts:
            ctx.step()
            expected = a.model_outcome(lambda: spec.T(text, EXTERNALS))
            got = a.outcome(lambda: template.parse(text, externals=self.externals))
            if expected[0] == 'err':
                a.compare('parse of %r' % text, expected, got)
                if current is None:
                    continue
                # after a failed parse the object holds the old or nothing of the new one, never a mixture
                result = a.outcome(lambda: template.substitute(self.externals, self.dictionary))[:2]
                allowed = [self.generate(current), ('ok', spec.scan('')[0][1])]
                if result not in allowed:
                    raise core.Mismatch('after failed parse of %r' % text, allowed, result)
                continue
            a.equal('parse of %r' % text, 'ok', got[0])
            current = text
            self.same_as_fresh(template, text, ctx)

    def same_as_fresh(self, template, text, ctx):
        fresh = a.template(text, self.externals)
        a.equal('re-parsed template equals a fresh one', True, template == fresh)
        a.equal('serialised re-parsed template', fresh.serialize(), template.serialize())
        a.equal('missing words', fresh.get_undictionaried_words(self.externals, self.dictionary),
                template.get_undictionaried_words(self.externals, self.dictionary))
        expected = a.model_outcome(lambda: spec.T(text, EXTERNALS).substitute(EXTERNALS, self.model_dictionary))
        a.compare('text generated after re-parse', expected,
                  a.outcome(lambda: template.substitute(self.externals, self.dictionary)))

    def shrink(self, case):
        if 'named' in case:
            return
        if 'known' in case:
            for i in range(len(case['known'])):
                yield dict(case, known=case['known'][:i] + case['known'][i + 1:])
            return
        if 'text' in case:
            for i in range(len(case['text'])):
                yield {'text': case['text'][:i] + case['text'][i + 1:]}
        elif 'parses' in case:
            for i in range(len(case['parses'])):
                yield {'parses': case['parses'][:i] + case['parses'][i + 1:]}
