"""C18: capitalisation."""
import itertools

from mc import adapter as a, core, pools, spec
from mc.checks import c15

TEXTS = ['', 'а', 'Я', 'аБв', 'ёЖ', '1а', ' а', 'ßa', 'ǆabc', 'АБВ', 'ŉa', '-яЯ', 'иЙ']
UPPER_VAR = spec.F(spec.W('NOUN', ['мастер'] * 18), {'WORD_CASE': 'UPPER', 'CASE': 'DATIVE'})
LOWER_VAR = spec.F(spec.W('NOUN', ['мастер'] * 18), {'WORD_CASE': 'LOWER'})
UPPER_WORD_VAR = spec.F(spec.W('NOUN', ['мастер'] * 18, {'WORD_CASE': 'UPPER'}))
VARS = {'большой': UPPER_VAR, 'малый': LOWER_VAR, 'просто': spec.F(spec.W('NOUN', ['м'] * 18)), 'слово_большой': UPPER_WORD_VAR, 'пять': spec.integer(5)}
DEPS = ['', 'загл', 'строч', 'рд', 'рд,загл', 'строч,загл', 'загл,строч', 'большой', 'малый', 'просто', 'слово_большой', 'пять', ' ЗАГЛ ']
BASE_PROPS = [{}, {'WORD_CASE': 'UPPER'}, {'WORD_CASE': 'LOWER', 'CASE': 'GENITIVE'}]
WORD_PROPS = [{}, {'WORD_CASE': 'LOWER'}, {'WORD_CASE': 'UPPER'}]
SPECIAL = '[]|%'


RICH = c15.full_sets()


class Check_(core.Check):
    id = 'C18'
    rule = ('state = (first character) for the Unicode sweeps, (name pattern, dependencies, form text, properties of word and variable) for '
            'the rest; the inserted text is compared with the model')

    def prepare(self, tier):
        self.vars = {n: a.form(f) for n, f in VARS.items()}
        self.empty = a.dictionary.Dictionary()

    def shards(self, tier):
        limit = 0x10000 if tier == 'quick' else 0x110000
        for lo, hi in core.chunks(32, limit):
            yield {'kind': 'unicode', 'range': [lo, hi]}
        yield {'kind': 'patterns'}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'kind': 'names', 'range': [lo, hi]}
        yield {'kind': 'forms'}
        yield {'kind': 'carried'}
        for lo, hi in core.chunks(8, len(RICH)):
            yield {'kind': 'rich', 'range': [lo, hi]}
        length = 2 if tier == 'quick' else 3
        for d in range(len(DEPS)):
            for e in range(len(DEPS)):
                yield {'kind': 'deps', 'prefix': [d, e], 'length': length + 1}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'unicode':
            for c in range(*shard['range']):
                if not 0xD800 <= c < 0xE000:
                    ctx.run({'kind': 'char', 'char': c})
        elif kind == 'names':
            for name in pools.NAMES[slice(*shard['range'])]:
                # as the text that is inserted, too
                for text in (name, 'а' + name + 'б', 'я ' + name * 9):
                    for written in ('Герой', 'герой'):
                        for source in ('variable', 'dictionary'):
                            ctx.run({'kind': 'pattern', 'name': 'герой', 'written': written, 'text': text, 'source': source})
                patterns = {name, name.upper(), name[:1].upper() + name[1:], name[:1] + name[1:].upper(), name[:-1] + name[-1:].upper(),
                            name[:1].upper() + name[1:-1] + name[-1:].upper(), name.title()}
                for pattern in sorted(p for p in patterns if p.lower() == name):
                    for text in ('аБв', 'Я', ''):
                        for source in ('variable', 'dictionary'):
                            ctx.run({'kind': 'pattern', 'name': name, 'written': pattern, 'text': text, 'source': source})
        elif kind == 'patterns':
            for name in ('герой', 'ёж', 'я', 'имя ё', 'abc', 'а1б', '1яб', '-ёж', '«имя»', "'а", '12'):
                for bits in itertools.product((0, 1), repeat=len(name)):
                    pattern = ''.join(c.upper() if b else c for c, b in zip(name, bits))
                    for pad in ('', ' ', '\t'):
                        for text in TEXTS:
                            for source in ('variable', 'dictionary'):
                                ctx.run({'kind': 'pattern', 'name': name, 'written': pad + pattern + pad, 'text': text, 'source': source})
        elif kind == 'carried':
            for type in spec.TYPES:
                for v in spec.VALUES:
                    for upper in ('word', 'form', 'name', 'dependency', 'master'):
                        for place in ('word', 'form', 'dependency', 'master'):
                            for text in ('аБв', 'ёж', 'Я', ''):
                                ctx.run({'kind': 'carried', 'type': type, 'value': v, 'upper': upper, 'place': place, 'text': text})
        elif kind == 'rich':
            for rich in RICH[slice(*shard['range'])]:
                for type in spec.TYPES:
                    for upper in ('word', 'form', 'name', 'dependency', 'master'):
                        for place in ('word', 'form', 'dependency', 'master'):
                            for text in ('аБв', 'ёж'):
                                ctx.run({'kind': 'carried', 'type': type, 'value': list(rich), 'upper': upper, 'place': place, 'text': text})
        elif kind == 'forms':
            for text in TEXTS:
                for p in BASE_PROPS:
                    for q in WORD_PROPS:
                        for r in [None] + BASE_PROPS:
                            ctx.run({'kind': 'form', 'text': text, 'props': p, 'form_props': r, 'word_props': q})
        else:
            prefix = [DEPS[i] for i in shard['prefix']]
            if prefix[1] == DEPS[0]:
                self.deps([prefix[0]], ctx)
            self.deps(prefix, ctx)
            for n in range(1, shard['length'] - 1):
                for rest in itertools.product(DEPS, repeat=n):
                    self.deps(prefix + list(rest), ctx, short=True)

    def deps(self, deps, ctx, short=False):
        for name in ('нечто', 'Нечто', 'нЕЧТО', 'НЕЧТО'):
            for text in ('', 'а', 'аБв', 'ßa') if short else TEXTS:
                for p in range(len(BASE_PROPS)):
                    for q in range(len(WORD_PROPS)):
                        if short and p and q:
                            continue
                        ctx.run({'kind': 'deps', 'written': name, 'deps': deps, 'text': text, 'props': p, 'word_props': q})

    def run_case(self, case, ctx):
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def generate(self, what, template, externals, dictionary=()):
        names = list(externals) + list(VARS)
        model = a.model_outcome(lambda: spec.T(template, names).substitute(dict(VARS, **externals), spec.D(dictionary)))
        real = dict(self.vars, **{n: a.form(f) for n, f in externals.items()})
        d = a.make_dictionary(dictionary) if dictionary else self.empty
        got = a.outcome(lambda: a.template(template, names).substitute(real, d))
        a.compare('%s: %r' % (what, template), model, got)
        return model

    def case_char(self, case, ctx):
        c = chr(case['char'])
        ctx.state(case['char'])
        ctx.step(4)
        word = spec.W('TEXT', [c + 'бВ'])
        form = spec.F(word)
        self.generate('text with first character %r' % c, '[Имя]', {'имя': form})
        self.generate('text with first character %r' % c, '[имя]', {'имя': form})
        self.generate('text with first character %r' % c, '[имя|загл]', {'имя': form})
        upper = a.words.WordForm(a.word(word), properties=a.properties(['WORD_CASE.UPPER']))
        a.equal('form in upper case', c.upper() + 'бВ', upper.form)
        if c in SPECIAL:
            return
        name = (c + 'а').strip()
        self.generate('name with first character %r' % c, '[%s]' % (c + 'а'), {name.lower(): spec.text_form('бВ')})

    def case_pattern(self, case, ctx):
        ctx.state((case['written'], case['text'], case['source']))
        ctx.step()
        word = spec.W('TEXT', [case['text']])
        if case['source'] == 'variable':
            self.generate('variable', '%%%s[%s]' % ('<', case['written']), {case['name']: spec.F(word)})
        else:
            noun = spec.W('NOUN', [case['name'], case['text']] + ['x'] * 16)
            self.generate('dictionary word', '[%s|рд]' % case['written'], {}, [noun])

    def case_carried(self, case, ctx):
        """capitalisation asked for in every place, together with any other property in every place"""
        ctx.state(str(case))
        ctx.step()
        upper = {case['upper']: 'WORD_CASE.UPPER'}
        own = {case['place']: [case['value']] if isinstance(case['value'], str) else case['value']}

        def at(place):
            return spec.props(*own.get(place, ()), upper.get(place))
        word = spec.W(case['type'], [case['text']] * spec.FORMS_NUMBER[case['type']], at('word'))
        externals = {'имя': spec.F(word, at('form')), 'при': spec.F(spec.W('NOUN', ['м'] * 18), at('master'))}
        dependency = ','.join(spec.VERBOSE[v] for v in [*own.get('dependency', ()), upper.get('dependency')] if v)
        master = '|при' if 'master' in (case['place'], case['upper']) else ''
        self.generate('text', '[%s%s|%s]' % ('Имя' if case['upper'] == 'name' else 'имя', master, dependency), externals)
        a.equal('form', externals['имя'].text, a.form(externals['имя']).form)

    def case_form(self, case, ctx):
        ctx.state(str(case))
        ctx.step(2)
        word = spec.W('NOUN', [case['text']] * 18, case['word_props'])
        form = spec.F(word, case['props'], case['form_props'])
        real = a.words.WordForm(a.word(word), properties=a.properties(case['props']),
                                form_properties=None if case['form_props'] is None else a.properties(case['form_props']))
        a.equal('form', form.text, real.form)
        a.equal('form asked again', form.text, real.form)
        a.equal('texts of the word', [case['text']] * 18, real.word.forms)

    def case_deps(self, case, ctx):
        ctx.state((case['written'], tuple(case['deps']), case['text'], case['props'], case['word_props']))
        ctx.step(2)
        word = spec.W('NOUN', [case['text']] * 9 + [case['text'] + 'ъ'] * 9, WORD_PROPS[case['word_props']])
        text = '[%s]' % '|'.join([case['written']] + case['deps'])
        self.generate('variable', text, {'нечто': spec.F(word, BASE_PROPS[case['props']])})
        if not case['props']:
            noun = spec.W('NOUN', ['нечто'] + [case['text']] * 17, WORD_PROPS[case['word_props']])
            self.generate('dictionary word', text, {}, [noun])

    def shrink(self, case):
        if case['kind'] == 'deps':
            for i in range(len(case['deps'])):
                yield dict(case, deps=case['deps'][:i] + case['deps'][i + 1:])
