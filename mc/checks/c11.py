"""C11: prepositions before all short texts."""
import itertools

from mc import adapter as a, core, spec
from mc.checks import c15

# vowel, iotated vowel, the two special consonants, other consonants, sign, non-letters, both cases
ALPHABET = 'оЕвСкь-'
FULL = 'аеёиоуыэюяАЕЁИОУЫЭЮЯбвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ-1aZ '
PREPOSITIONS = [['в', 'во', 'во!'], ['с', 'со', 'со!'], ['к', 'ко', 'ко!'], ['о', 'об', 'обо'], ['из', 'изо', 'изо!'],
                ['на', 'на~', 'на!'], ['В', 'ВО', 'ВО!'], ['', '~', '!'], ['о', 'об', ''], ['перед', 'передо', 'x'],
                ['до', 'до', 'до']]
SECOND = ['', 'о', 'вое', 'кк', 'ао', 'сое', 'Ео']
MASTERS = ['', 'сна', 'сон', 'льва', 'вс', 'сс', 'Всё', 'сто', 'всех', 'мне', 'оса', 'Ева', 'юг', 'Ум', 'эй', 'х', 'дом', 'взлёт', '1', 'ъ', 'ьо']
RICH = c15.full_sets()
TYPES = ['NOUN', 'VERB', 'ADJECTIVE', 'PRONOUN', 'PARTICIPLE', 'TEXT', 'INTEGER', 'PREPOSITION']


def variants(text):
    yield text
    for v in (text.upper(), text[:1].upper() + text[1:], text[:-1] + text[-1:].upper()):
        if v != text:
            yield v


class Check_(core.Check):
    id = 'C11'
    rule = ('state = (preposition forms, first form of the following word, other form, inserted form, request); every text up to the '
            'bound over the alphabet, every one- and two-letter text over all Russian letters')
    BOUNDS = {'quick': 4, 'thorough': 6}

    def prepare(self, tier):
        self.prepositions = [spec.W('PREPOSITION', p) for p in PREPOSITIONS]
        self.dictionaries = []
        self.empty = a.dictionary.Dictionary()
        for p in self.prepositions:
            self.dictionaries.append((spec.D([p]), a.make_dictionary([p]), a.word(p)))

    def shards(self, tier):
        for p in range(len(PREPOSITIONS)):
            yield {'kind': 'twins', 'p': p}
        for t in core.strings(ALPHABET, 2, 2):
            yield {'kind': 'texts', 'prefix': ''.join(t), 'length': self.BOUNDS[tier] - 2}
        yield {'kind': 'short'}
        for lo, hi in core.chunks(16, len(FULL)):
            yield {'kind': 'letters', 'range': [lo, hi], 'third': tier == 'thorough'}
        yield {'kind': 'special'}
        yield {'kind': 'types'}
        for lo, hi in core.chunks(8, len(spec.VALUES)):
            yield {'kind': 'carried', 'range': [lo, hi]}
        for lo, hi in core.chunks(8, len(RICH)):
            yield {'kind': 'rich', 'range': [lo, hi]}
        yield {'kind': 'long'}
        for lo, hi in core.chunks(16, len(FULL)):
            yield {'kind': 'endings', 'range': [lo, hi]}
        for p in range(len(PREPOSITIONS)):
            yield {'kind': 'several', 'p': p, 'length': 2 if tier == 'quick' else 3}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind in ('texts', 'short'):
            source = core.strings(ALPHABET, 1) if kind == 'short' else core.strings(ALPHABET, shard['length'])
            for t in source:
                first = shard.get('prefix', '') + ''.join(t)
                for second in SECOND:
                    for p in range(8):
                        ctx.run({'p': p, 'forms': [first, second], 'use': 0, 'deps': ''})
                        if second:
                            ctx.run({'p': p, 'forms': [second, first], 'use': 1, 'deps': ''})
        elif kind == 'letters':
            for x in FULL[shard['range'][0]:shard['range'][1]]:
                for y in [''] + list(FULL):
                    for tail in ('', 'о', 'к', 'оо') if not shard['third'] else [''] + list(FULL):
                        for p in (0, 1, 3, 2) if not shard['third'] else (0, 1, 3):
                            for second in ('', 'ко'):
                                ctx.run({'p': p, 'forms': [x + y + tail, second], 'use': 0, 'deps': ''})
        elif kind == 'special':
            for text in spec.OBO + ('все', 'тебе', 'чём', 'мной', 'весь', 'всей?', 'чт', 'мн', 'её', 'всё', 'всеи'):
                for v in {''.join(c) for c in itertools.product(*[(x.lower(), x.upper()) for x in text])}:
                    for p in range(len(PREPOSITIONS)):
                        for second in SECOND:
                            ctx.run({'p': p, 'forms': [v, second], 'use': 0, 'deps': ''})
                            ctx.run({'p': p, 'forms': [second, v], 'use': 1, 'deps': ''})
        elif kind == 'carried':
            # every property anywhere: requested, of the preposition, of the following word, of its form
            for v in spec.VALUES[slice(*shard['range'])]:
                for p in range(len(PREPOSITIONS)):
                    for text in MASTERS:
                        for type in ('NOUN', 'PRONOUN', 'TEXT', 'ADJECTIVE') if p in (0, 3) else ('NOUN',):
                            base = {'preposition': PREPOSITIONS[p], 'masters': [[text, 'сон'][:spec.FORMS_NUMBER[type]]], 'type': type}
                            for deps in (['м0', spec.VERBOSE[v]], [spec.VERBOSE[v], 'м0']):
                                ctx.run(dict(base, deps=deps))
                            for place in ('preposition', 'word', 'form'):
                                ctx.run(dict(base, deps=['м0'], carried={place: v}))
        elif kind == 'rich':
            # many properties at once
            for i in range(*shard['range']):
                rich = list(RICH[i])
                for p in range(len(PREPOSITIONS)):
                    for text in MASTERS:
                        for type in ('NOUN', 'TEXT'):
                            base = {'preposition': PREPOSITIONS[p], 'masters': [[text, 'сон'][:spec.FORMS_NUMBER[type]]], 'type': type}
                            for place in ('preposition', 'word', 'form'):
                                ctx.run(dict(base, deps=['м0'], carried={place: rich}))
                    ctx.run(dict(base, deps=['м0', ','.join(spec.VERBOSE[v] for v in rich)]))
                    ctx.run(dict(base, deps=[','.join(spec.VERBOSE[v] for v in rich), 'м0']))
        elif kind == 'twins':
            for type in ('NOUN', 'PRONOUN', 'ADJECTIVE'):
                for order in (1, -1):
                    ctx.run({'twins': type, 'p': shard['p'], 'order': order})
        elif kind == 'long':
            for n in list(range(4, 40)) + [50, 64, 100, 129, 256, 300]:
                for head in ('', 'о', 'с', 'к', 'в', 'вс', 'сс', 'мне', 'всех', 'Е', 'ё', 'А'):
                    for body in ('к', 'о', 'ок', 'ко', 'ь', '- '):
                        text = (head + body * n)[:n]
                        for p in (0, 1, 2, 3):
                            for base in ('сон', 'лоб', 'к', text):
                                ctx.run({'preposition': PREPOSITIONS[p], 'masters': [[base, text]], 'deps': ['м0'], 'carried': {'form': 'CASE.GENITIVE'}})
                            ctx.run({'preposition': [text + 'к', 'x', 'y'], 'masters': [['сна', 'сон']], 'deps': ['м0']})
                            ctx.run({'preposition': [text + 'о', 'x', 'y'], 'masters': [['оса', '']], 'deps': ['м0']})
        elif kind == 'endings':
            # every last letter of a preposition, alone and after another one
            for x in FULL[slice(*shard['range'])]:
                for stem in ('', 'н', 'о', 'В', 'пер'):
                    normal = stem + x
                    for text in MASTERS + [x, x + 'к', x + 'о', x.upper() + 'к', x.lower() + 'к', x + x, normal + 'к']:
                        for second in ('', 'сон'):
                            ctx.run({'preposition': [normal, normal + '~', normal + '!'], 'masters': [[text, second]], 'deps': ['м0']})
        elif kind == 'several':
            # several following words and requested variants: applied in order
            pool = [[text, ''] for text in MASTERS] + [['сон', 'сна'], ['сна', 'сон']]
            for masters in itertools.product(pool, repeat=2):
                for deps in (['м0', 'м1'], ['м0', 'алт', 'м1'], ['м0', 'м1', 'осн'], ['спц', 'м1', 'м0', 'м1']):
                    ctx.run({'preposition': PREPOSITIONS[shard['p']], 'masters': [list(m) for m in masters], 'deps': deps})
            if shard['length'] == 3:
                for masters in itertools.product(pool[::2], repeat=3):
                    ctx.run({'preposition': PREPOSITIONS[shard['p']], 'masters': [list(m) for m in masters], 'deps': ['м0', 'м1', 'м2']})
        else:
            for type in TYPES:
                for text in ('сон', 'сна', 'всех', 'мне', 'уж', 'лев', 'льва', '', 'я', 'х', 'Сна', 'взлёт', 'ртуть', 'сто'):
                    for second in ('', 'сон', 'сна', 'льва', 'рот'):
                        for p in range(len(PREPOSITIONS)):
                            for deps in ('', 'алт', 'спц', 'осн', 'загл', 'рд,мн'):
                                for use in (0, 1):
                                    ctx.run({'p': p, 'forms': [text, second], 'use': use, 'deps': deps, 'type': type})

    def several(self, case, ctx):
        carried = {place: [v] if isinstance(v, str) else v for place, v in case.get('carried', {}).items()}
        type = case.get('type', 'NOUN')
        model_preposition = spec.W('PREPOSITION', case['preposition'], spec.props(*carried.get('preposition', ())))
        model_externals = {'п': spec.F(model_preposition)}
        for i, forms in enumerate(case['masters']):
            model_externals['м%d' % i] = spec.F(spec.W(type, forms + [''] * (spec.FORMS_NUMBER[type] - len(forms)), spec.props(*carried.get('word', ()))), spec.props(*carried.get('form', ())))
        externals = {name: a.form(f) for name, f in model_externals.items()}
        text = '[%s]' % '|'.join(['п'] + case['deps'])
        expected = a.model_outcome(lambda: spec.T(text, model_externals).substitute(model_externals, spec.D()))
        got = a.outcome(lambda: a.template(text, externals).substitute(externals, self.empty))
        a.compare('%s: %r before %r' % (text, case['preposition'], case['masters']), expected, got)

    def twins(self, case, ctx):
        """forms of one word that differ only in their text, one after the other"""
        type, preposition = case['twins'], self.prepositions[case['p']]
        sets = [spec.slot_props(type, 0), spec.slot_props(type, 1), dict(spec.slot_props(type, 0), WORD_CASE='UPPER'), dict(spec.slot_props(type, 1), WORD_CASE='UPPER'), {}]
        model = {'п': spec.F(preposition)}
        real = {'п': a.form(model['п'])}
        m, t = spec.T('[п|м]', dict(model, м=None)), a.template('[п|м]', dict(real, м=None))
        for forms in itertools.product(MASTERS, repeat=2):
            word = spec.W(type, list(forms) + [''] * (spec.FORMS_NUMBER[type] - 2))
            for shared in (a.word(word), None):
                for props, form_props in list(itertools.product(sets, sets))[::case['order']]:
                    model['м'] = spec.F(word, props, form_props)
                    real['м'] = a.form(model['м'], shared)
                    ctx.step()
                    expected = a.model_outcome(lambda: m.substitute(model, spec.D()))
                    got = a.outcome(lambda: t.substitute(real, self.empty))
                    a.compare('%r before %r with properties %r, form properties %r' % (preposition.forms, forms, props, form_props), expected, got)

    def run_case(self, case, ctx):
        if 'twins' in case:
            ctx.state()
            return self.twins(case, ctx)
        if 'preposition' in case:
            ctx.state()
            ctx.step()
            return self.several(case, ctx)
        ctx.state()
        ctx.step()
        type = case.get('type', 'NOUN')
        n = spec.FORMS_NUMBER[type]
        forms = list(case['forms'])
        forms = forms[:n] + [''] * (n - 2)
        use = case['use'] if n > 1 else 0
        model_word = spec.W(type, forms)
        request = spec.slot_props(type, use)
        master = spec.F(model_word, request)
        real_master = a.words.WordForm(a.word(model_word), properties=a.properties(request))
        model_dictionary, dictionary, preposition = self.dictionaries[case['p']]
        base = spec.F(self.prepositions[case['p']])
        model_externals = {'м': master, 'п': base}
        externals = {'м': real_master, 'п': a.words.WordForm(preposition)}
        text = '[п|м|%s]' % case['deps'] if case['deps'] else '[п|м]'
        expected = spec.T(text, model_externals).substitute(model_externals, model_dictionary)
        got = a.template(text, externals).substitute(externals, dictionary)
        what = '%s before %r (word forms %r)' % (PREPOSITIONS[case['p']][0], master.text, case['forms'])
        if got != expected:
            raise core.Mismatch(what, expected, got)
        # the decision does not depend on the capitalisation of what is inserted
        if not case['deps'] and master.text and case['p'] in (0, 3) and type == 'NOUN':
            capital = a.words.WordForm(real_master.word, properties=a.properties(spec.props(request, 'WORD_CASE.UPPER')))
            ctx.step()
            got = a.template(text, externals).substitute(dict(externals, м=capital), dictionary)
            if got.lower() != expected.lower():
                raise core.Mismatch(what + ', capitalised', expected, got)
