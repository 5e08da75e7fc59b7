"""C04: order of dependencies, against the reference engine."""
import itertools

from mc import adapter as a, core, pools, spec
from mc.checks import c15


def labels(type, prefix=''):
    return ['%s%s%d' % (prefix, type.lower(), i) for i in range(spec.FORMS_NUMBER[type])]


def W(type, *fixed, prefix=''):
    return spec.W(type, labels(type, prefix), spec.props(*fixed))


# variables of every part of speech, with own and with requested properties
EXTERNALS = {
    'герой': spec.F(W('NOUN', 'ANIMALITY.ANIMATE', 'GENDER.MASCULINE', prefix='e')),
    'вещь': spec.F(W('NOUN', 'ANIMALITY.INANIMATE', 'GENDER.FEMININE', prefix='v')),
    'часы': spec.F(W('NOUN', 'ANIMALITY.INANIMATE', 'NUMBER.PLURAL', prefix='p'), spec.props('CASE.DATIVE')),
    'кому': spec.F(W('NOUN', 'GENDER.NEUTER', prefix='d'), spec.props('CASE.DATIVE', 'NUMBER.PLURAL')),
    'он': spec.F(W('PRONOUN', 'PRONOUN_CATEGORY.PERSONAL', 'PERSON.THIRD', 'GENDER.MASCULINE', prefix='e')),
    'мы': spec.F(W('PRONOUN', 'PERSON.FIRST', 'NUMBER.PLURAL', prefix='m')),
    'какой': spec.F(W('ADJECTIVE', 'ADJECTIVE_CATEGORY.QUALITY', prefix='e'), spec.props('GRADE.SUPERLATIVE', 'CASE.ACCUSATIVE')),
    'делал': spec.F(W('VERB', 'ASPECT.PERFECTIVE', 'VOICE.DIRECT', prefix='e'), spec.props('VERB_FORM.INDICATIVE', 'TIME.FUTURE', 'PERSON.SECOND')),
    'дел': spec.F(W('PARTICIPLE', 'ASPECT.PERFECTIVE', prefix='e'), spec.props('TIME.PRESENT', 'GENDER.FEMININE')),
    'раз': spec.integer(1), 'два': spec.integer(2), 'два2': spec.integer(22), 'пять': spec.integer(5),
    'миллион': spec.integer(1000000), 'сто1': spec.integer(101),
    'т': spec.text_form('просто'),
    'во': spec.F(W('PREPOSITION', prefix='e'), spec.props('PREPOSITION_FORM.SPECIAL')),
    # the dependency text of this variable is recognised with other properties than its form has
    'хитр': spec.F(W('NOUN', 'GENDER.FEMININE', prefix='x'), spec.props('CASE.GENITIVE', 'WORD_CASE.UPPER'),
                   spec.props('CASE.DATIVE')),
    # a name of several words
    'переменная 1': spec.F(W('NOUN', 'GENDER.FEMININE', 'ANIMALITY.ANIMATE', prefix='n'), spec.props('CASE.INSTRUMENTAL')),
    # a variable named like a property identifier
    'рд': spec.F(W('NOUN', 'GENDER.NEUTER', prefix='r'), spec.props('NUMBER.PLURAL')),
}
PROPERTY_DEPS = ['вн', 'дт', 'ед', 'мн', 'мр', 'жр', 'ср,но', 'од', 'нст', 'буд,1л', 'прш', 'изъяв', 'пов,2л', 'инф',
                 'сравн', 'прев', 'крприл', 'полнприч', 'крприч', 'счт', 'нс', 'алт', 'сзв', 'пзв', 'загл', 'строч',
                 'вн,дт', 'мн,ед', 'дт,мн,жр,вн', '', 'цд', 'цо', '3л', 'сущ']
SLAVES = {}   # name -> part of speech; texts of the dictionary words, base forms of different slots
DICTIONARY = []
for _type in spec.TYPES:
    DICTIONARY.append(W(_type, prefix='w'))
DICTIONARY += [W('NOUN', 'NUMBER.PLURAL', 'GENDER.FEMININE', 'ANIMALITY.INANIMATE', prefix='f'),
               W('ADJECTIVE', 'ADJECTIVE_CATEGORY.RELATIVE', 'GRADE.COMPARATIVE', prefix='f'),
               W('VERB', 'ASPECT.PERFECTIVE', 'TIME.FUTURE', prefix='f'),
               W('PRONOUN', 'PERSON.FIRST', 'NUMBER.SINGULAR', prefix='f')]
# words that lack the texts of every second slot
for _type in ('NOUN', 'ADJECTIVE', 'VERB', 'PRONOUN'):
    DICTIONARY.append(spec.W(_type, [text if i % 2 else '' for i, text in enumerate(labels(_type, 'g'))], spec.props('GENDER.MASCULINE')))
EXTERNALS['пустой'] = spec.F(spec.W('NOUN', [text if i % 3 == 0 else '' for i, text in enumerate(labels('NOUN', 'o'))], spec.props('GENDER.FEMININE')),
                             spec.props('CASE.DATIVE'))
SLAVE_IDS = ['wnoun0', 'wnoun8', 'wnoun16', 'wadjective0', 'wadjective30', 'wadjective48', 'wadjective98', 'wpronoun0',
             'wpronoun44', 'wverb0', 'wverb3', 'wverb12', 'wverb18', 'wparticiple0', 'wparticiple100', 'wparticiple146',
             'winteger0', 'wtext0', 'wpreposition0', 'wpreposition2', 'fnoun7', 'fadjective48', 'fverb13', 'fpronoun20',
             'gnoun1', 'gadjective1', 'gverb4', 'пустой', 'Wnoun3', 'Fadjective0', 'герой', 'Часы', 'хитр', 'он', 'пять', 'какой', 'делал', 'т', 'во', 'переменная 1', 'Переменная 1']
DEPS = PROPERTY_DEPS + list(EXTERNALS)
CORE_DEPS = ['вн', 'мн', 'жр', 'нст', 'сзв', 'счт', 'строч', 'дт,вн', 'герой', 'часы', 'мы', 'два', 'пять', 'хитр', 'делал', 'рд']
RICH = c15.full_sets()
CORE_SLAVES = ['wnoun8', 'wadjective30', 'wverb3', 'wpronoun44', 'wparticiple100', 'wpreposition0', 'fnoun7', 'Fadjective0', 'часы']


class Check_(core.Check):
    id = 'C04'
    rule = ('case = one substitution [word|dep|dep|...]; state = (word, dependency list); every list up to the bound from the '
            'pool of properties, comma lists and variables of every part of speech')

    def prepare(self, tier):
        self.externals = {name: a.form(f) for name, f in EXTERNALS.items()}
        self.model_dictionary = spec.D(DICTIONARY)
        self.dictionary = a.make_dictionary(DICTIONARY)

    def shards(self, tier):
        for type in spec.TYPES:
            yield {'kind': 'twins', 'type': type}
        for s in SLAVE_IDS:
            yield {'kind': 'lists', 'slave': s, 'lengths': [0, 1, 2], 'deps': DEPS}
        if tier == 'quick':
            for s in SLAVE_IDS:
                yield {'kind': 'lists', 'slave': s, 'lengths': [3], 'deps': CORE_DEPS}
            for s in CORE_SLAVES:
                for first in DEPS[::2]:
                    yield {'kind': 'lists', 'slave': s, 'lengths': [2], 'deps': DEPS, 'first': first}
        else:
            for s in SLAVE_IDS:
                for first in DEPS:
                    yield {'kind': 'lists', 'slave': s, 'lengths': [2], 'deps': DEPS, 'first': first}
            for s in CORE_SLAVES:
                for first in CORE_DEPS:
                    yield {'kind': 'lists', 'slave': s, 'lengths': [3], 'deps': CORE_DEPS, 'first': first}

        for type in spec.TYPES:
            for lo, hi in core.chunks(4, len(spec.VALUES)):
                yield {'kind': 'carried', 'type': type, 'range': [lo, hi]}
            for lo, hi in core.chunks(2, len(RICH)):
                yield {'kind': 'rich', 'type': type, 'range': [lo, hi]}
        for lo, hi in core.chunks(16, len(pools.NAMES)):
            yield {'kind': 'named', 'range': [lo, hi]}
        for s in SLAVE_IDS if tier == 'thorough' else CORE_SLAVES:
            yield {'kind': 'windows', 'slave': s}

    def explore(self, shard, ctx):
        if shard['kind'] == 'windows':
            return self.windows(shard['slave'], ctx)
        if shard['kind'] == 'twins':
            for order in (1, -1):
                for shared in (True, False):
                    ctx.run({'twins': shard['type'], 'order': order, 'shared': shared, 'slots': 8 if ctx.tier == 'quick' else 40})
            return
        if shard['kind'] == 'carried':
            for i in range(*shard['range']):
                ctx.run({'carried': spec.VALUES[i], 'type': shard['type'], 'deps': CORE_DEPS if ctx.tier == 'quick' else DEPS})
            return
        if shard['kind'] == 'rich':
            for i in range(*shard['range']):
                ctx.run({'carried': list(RICH[i]), 'type': shard['type'], 'deps': [spec.VERBOSE[v] for v in RICH[i * 7 % len(RICH)]] + ['мн,дт', 'вн', 'пять', 'герой', 'мы']})
            return
        if shard['kind'] == 'named':
            for i in range(*shard['range']):
                ctx.run({'named': pools.NAMES[i]})
            return
        first = [shard['first']] if 'first' in shard else []
        for length in shard['lengths']:
            for deps in itertools.product(shard['deps'], repeat=length):
                ctx.run({'slave': shard['slave'], 'deps': first + list(deps)})

    def windows(self, slave, ctx):
        """long lists: every window of the pools, forwards and backwards, as dependencies and as one comma list"""
        identifiers = [spec.VERBOSE[v] for v in spec.VALUES]
        wide = ctx.tier == 'thorough'
        for pool, step in ((DEPS, 1 if wide else 2), (CORE_DEPS * 2, 1), (identifiers, 1 if wide else 3)):
            for order in (pool, pool[::-1], pool[::2] + pool[1::2]):
                for start in range(0, len(order), step):
                    for n in sorted({4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 26, 32, 33, len(order)}):
                        deps = (order + order)[start:start + n]
                        ctx.run({'slave': slave, 'deps': deps})
                        if pool is identifiers:
                            ctx.run({'slave': slave, 'deps': [','.join(deps)]})
                            ctx.run({'slave': slave, 'deps': ['\u043c\u044b', ','.join(deps), '\u043f\u044f\u0442\u044c'], })
                            ctx.run({'slave': slave, 'deps': [','.join(deps[:n // 2]), ','.join(deps[n // 2:])]})

    def run_case(self, case, ctx):
        ctx.state()
        ctx.step()
        if 'named' in case:
            return self.named(case['named'], ctx)
        if 'carried' in case:
            return self.carried(case, ctx)
        if 'twins' in case:
            return self.twins(case, ctx)
        text = '[%s]' % '|'.join([case['slave']] + case['deps'])
        expected = a.model_outcome(lambda: spec.T(text, EXTERNALS).substitute(EXTERNALS, self.model_dictionary))
        ctx.outcome(expected[0])
        got = a.outcome(lambda: a.template(text, self.externals).substitute(self.externals, self.dictionary))
        a.compare('text generated from %s' % text, expected, got)

    def carried(self, case, ctx):
        """a property of the word itself, of its form, both as the word that is inserted and as the one it depends on"""
        type, v = case['type'], case['carried']
        v = [v] if isinstance(v, str) else v
        word = W(type, *v, prefix='c')
        externals = dict(EXTERNALS, слово=spec.F(word), форма=spec.F(W(type, prefix='c'), spec.props(*v)), обе=spec.F(word, spec.props('CASE.DATIVE', 'NUMBER.PLURAL', 'GENDER.FEMININE')),
                         обе2=spec.F(W(type, 'CASE.DATIVE', 'NUMBER.PLURAL', 'PERSON.THIRD', prefix='c'), spec.props(*v)))
        real = dict(self.externals, **{n: a.form(externals[n]) for n in ('слово', 'форма', 'обе', 'обе2')})
        last = len(word.forms) - 1
        d = (spec.D([word] + DICTIONARY[:8]), a.make_dictionary([word] + DICTIONARY[:8]))
        texts = ['[%s|%s]' % (name, dep) for name in (word.forms[0], word.forms[last], 'слово', 'форма', 'обе', 'обе2') for dep in case['deps']]
        texts += ['[%s|%s%s]' % (name, master, dep) for name in ('wnoun0', 'wadjective48', 'wverb12', 'wparticiple0', 'wpronoun0', 'wpreposition0', 'часы')
                  for master in ('слово', 'форма', 'обе', 'обе2') for dep in ('', '|вн', '|мн,дт', '|два', '|герой')]
        rivals = [spec.VERBOSE[w] for w in spec.VALUES if len(v) == 1 and spec.split(w)[0] == spec.split(v[0])[0]] + [','.join(spec.VERBOSE[w] for w in v)]
        texts += ['[%s|%s]' % (name, dep % w) for name in (word.forms[0], 'слово', 'форма', 'обе', 'обе2') for w in rivals for dep in ('%s', '%s,вн|два', 'пять|%s', 'обе2|%s|мн', '%s|герой')]
        for text in [case['text']] if 'text' in case else texts:
            ctx.step()
            expected = a.model_outcome(lambda: spec.T(text, externals).substitute(externals, d[0]))
            got = a.outcome(lambda: a.template(text, real).substitute(real, d[1]))
            a.compare('text generated from %s' % text, expected, got)

    def twins(self, case, ctx):
        """forms of one word that differ only in what they are recognised by or only in their text, one after the other"""
        type = case['twins']
        word, n = W(type, prefix='t'), spec.FORMS_NUMBER[type]
        slots = [spec.slot_props(type, i) for i in sorted({i * n // case['slots'] for i in range(case['slots'])})] + [{'WORD_CASE': 'UPPER'}, {'INTEGER_FORM': 'DUAL', 'ANIMALITY': 'ANIMATE'}]
        texts = ['[х]', '[Х|вн]', '[х|мн,дт|два]', '[х|герой]', '[герой|х]', '[wnoun0|х]', '[wadjective48|мн|х]', '[wverb12|х|прш]', '[wpronoun0|х]', '[wparticiple0|два|х]', '[wpreposition0|х]', '[wnoun0|х|пять] [х|часы]']
        model_templates = [spec.T(text, dict(EXTERNALS, х=None)) for text in texts]
        templates = [a.template(text, dict(self.externals, х=None)) for text in texts]
        w = a.word(word)
        model, real = dict(EXTERNALS), dict(self.externals)
        for props, form_props in list(itertools.product(slots, slots))[::case['order']]:
            model['х'] = spec.F(word, props, form_props)
            real['х'] = a.form(model['х'], w if case['shared'] else None)
            for text, m, t in zip(texts, model_templates, templates):
                ctx.step()
                expected = a.model_outcome(lambda: m.substitute(model, self.model_dictionary))
                got = a.outcome(lambda: t.substitute(real, self.dictionary))
                a.compare('text generated from %s, where х has properties %r, form properties %r' % (text, props, form_props), expected, got)

    def named(self, name, ctx):
        """a master, a word and a word of the dictionary with an odd name"""
        master = spec.F(W('NOUN', 'GENDER.FEMININE', 'ANIMALITY.ANIMATE', 'NUMBER.PLURAL', prefix='q'), spec.props('CASE.INSTRUMENTAL'))
        other = pools.FEW[len(name) * 7 % len(pools.FEW)]
        externals = {'герой': EXTERNALS['герой'], 'два': EXTERNALS['два'], other: EXTERNALS['часы'], name: master}
        real = dict({n: self.externals[n] for n in ('герой', 'два')}, **{other: self.externals['часы'], name: a.form(master)})
        word = spec.W('ADJECTIVE', [name] + labels('ADJECTIVE', 'q')[1:])
        d = (spec.D([word]), a.make_dictionary([word]))
        for supplied, model_words, words in ((externals, self.model_dictionary, self.dictionary), ({n: f for n, f in externals.items() if n != name},) + d):
            supplied_real = {n: real[n] for n in supplied}
            for text in ('[{s}|{n}]', '[{s}|{n}|{o}|герой]', '[{s}|{o}|мн|{n}]', '[{n}]', '[{n}|рд]', '[{n}|{o}|{n}]', '[{n}|два|герой]', '[{s}|рд|{n}|рд,{n}]'):
                for s in ('wadjective30', 'fnoun7', 'Часы') if '{s}' in text else ('',):
                    filled = text.replace('{s}', s).replace('{n}', name).replace('{o}', other)
                    ctx.step()
                    expected = a.model_outcome(lambda: spec.T(filled, supplied).substitute(supplied, model_words))
                    got = a.outcome(lambda: a.template(filled, supplied_real).substitute(supplied_real, words))
                    a.compare('text generated from %s' % filled, expected, got)

    def shrink(self, case):
        if 'deps' not in case or 'carried' in case:
            return
        for i in range(len(case['deps'])):
            yield dict(case, deps=case['deps'][:i] + case['deps'][i + 1:])
