"""C10: government by numerals, every cell of the table, end to end through templates."""
import itertools

from mc import adapter as a, core, spec
from mc.checks.c04 import RICH, labels

NUMERALS = {'SINGULAR': 21, 'DUAL': 3, 'COMPOSITE_DUAL': 22, 'PLURAL': 5, 'MIL_BIL': 10 ** 6}
ONE = 1
SLAVES = {'NOUN': [0, 5, 9, 16], 'PRONOUN': [0, 20, 46], 'ADJECTIVE': [0, 20, 48, 60, 98], 'VERB': [0, 2, 6, 12, 18],
          'PARTICIPLE': [0, 60, 145]}
EXTRA = {'NOUN': ['', 'нс', 'счт'], 'PRONOUN': ['', '1л'], 'ADJECTIVE': ['', 'прев', 'крприл', 'сравн'],
         'VERB': ['', 'нст', 'буд,3л', 'пов', 'инф'], 'PARTICIPLE': ['', 'нст', 'крприч']}
# other dependencies around the numeral (positions and neighbours of '#')
AROUND = [['#', 'т'], ['т', '#'], ['#', 'мы'], ['мы', '#'], ['#', '#'], ['#', '#2'], ['#2', '#'], ['#', 'дело'], ['дело', '#'], ['#', 'предл'], ['предл', '#'],
          ['#', 'т', 'дело'], ['дело', '#', 'т'], ['#', 'мн'], ['#', 'рд', 'т'], ['#', 'т', 'вн,но'], ['сзв', '#', 'т'], ['#', 'сзв', 'мы'], ['#2', 'т', '#']]
OTHERS = {'т': spec.text_form('т'), 'мы': spec.F(spec.W('PRONOUN', labels('PRONOUN'), {'NUMBER': 'PLURAL'}), {'CASE': 'DATIVE'}),
          'дело': spec.F(spec.W('NOUN', labels('NOUN'), {'GENDER': 'NEUTER', 'ANIMALITY': 'INANIMATE'}), {'CASE': 'ACCUSATIVE'}),
          'предл': spec.F(spec.W('PREPOSITION', labels('PREPOSITION'))), '#2': spec.integer(22)}
FIXED = {'NOUN': [[], ['GENDER.FEMININE', 'ANIMALITY.ANIMATE'], ['GENDER.NEUTER', 'ANIMALITY.INANIMATE'], ['NUMBER.PLURAL']],
         'PRONOUN': [[], ['PERSON.THIRD'], ['NUMBER.SINGULAR']], 'ADJECTIVE': [[], ['ADJECTIVE_CATEGORY.RELATIVE']],
         'VERB': [[], ['ASPECT.PERFECTIVE', 'VOICE.REVERSE']], 'PARTICIPLE': [[], ['VOICE.REVERSE']]}


class Check_(core.Check):
    id = 'C10'
    rule = ('state = (part of speech, form in the template, own properties, numeral class, case, animacy, gender, number, mode, order '
            'of dependencies); plus every number of a range in words')

    def prepare(self, tier):
        self.others = {n: a.form(f) for n, f in OTHERS.items()}
        self.numbers = {n: (spec.integer(n), a.constructors.construct_integer(n))
                        for n in list(NUMERALS.values()) + [1, 0, 2, 4, 11, 12, 101, 10 ** 9, -1, -3, -22]}

    def shards(self, tier):
        for type in SLAVES:
            for slot in SLAVES[type] if tier == 'quick' else range(spec.FORMS_NUMBER[type]):
                for f in range(len(FIXED[type])):
                    yield {'kind': 'cells', 'type': type, 'slot': slot, 'fixed': f}
        for type in SLAVES:
            for lo, hi in core.chunks(8, len(spec.VALUES)):
                yield {'kind': 'carried', 'type': type, 'range': [lo, hi]}
            for lo, hi in core.chunks(2, len(RICH)):
                yield {'kind': 'rich', 'type': type, 'range': [lo, hi]}
        for lo, hi in core.chunks(16, 1100 if tier == 'quick' else 12000):
            yield {'kind': 'numbers', 'range': [lo, hi]}

    def explore(self, shard, ctx):
        if shard['kind'] == 'numbers':
            for n in range(*shard['range']):
                for type, slot in (('NOUN', 0), ('ADJECTIVE', 0), ('PRONOUN', 0), ('PARTICIPLE', 0), ('VERB', 1)):
                    ctx.run({'type': type, 'slot': slot, 'fixed': [], 'number': n, 'deps': ['#']})
                    ctx.run({'type': type, 'slot': slot, 'fixed': [], 'number': -n, 'deps': ['#', 'вн,но']})
            return
        type = shard['type']
        if shard['kind'] == 'rich':
            # many properties at once
            for i in range(*shard['range']):
                rich = list(RICH[i])
                for number in list(NUMERALS.values()) + [ONE]:
                    base = {'type': type, 'slot': SLAVES[type][i % len(SLAVES[type])], 'fixed': [], 'number': number}
                    for request in ('', 'вн,но', 'дт', 'сзв'):
                        ctx.run(dict(base, fixed=rich, deps=['#', request]))
                        ctx.run(dict(base, fixed=rich[:4], deps=['#', request, 'ч'], carried={'other form': rich, 'other word': rich[4:]}))
                        for place in ('form', 'other form', 'other word', 'number'):
                            ctx.run(dict(base, deps=['#', request] if place in ('form', 'number') else ['#', request, 'ч'], carried={place: rich}))
                    ctx.run(dict(base, deps=['#', ','.join(spec.VERBOSE[v] for v in rich)]))
                    ctx.run(dict(base, deps=[','.join(spec.VERBOSE[v] for v in rich), '#']))
            return
        if shard['kind'] == 'carried':
            # every property anywhere: requested, of the word, of its form, of the form and of the word of another master, of the numeral
            for v in spec.VALUES[slice(*shard['range'])]:
                for slot in SLAVES[type][::1 if ctx.tier == 'thorough' else 2]:
                    for number in list(NUMERALS.values()) + [ONE]:
                        for request in ('', 'вн,но', 'вн,од', 'дт', 'вн,но,жр', 'сзв', 'сзв,вн,мн'):
                            base = {'type': type, 'slot': slot, 'fixed': [], 'number': number}
                            ctx.run(dict(base, deps=['#', ','.join(x for x in (request, spec.VERBOSE[v]) if x)]))
                            ctx.run(dict(base, deps=[spec.VERBOSE[v], '#', request]))
                            ctx.run(dict(base, fixed=[v], deps=['#', request]))
                            for place in ('form', 'other form', 'other word', 'number'):
                                ctx.run(dict(base, deps=['#', request] if place in ('form', 'number') else ['#', request, 'ч'], carried={place: v}))
            return
        base = {'type': type, 'slot': shard['slot'], 'fixed': FIXED[type][shard['fixed']]}
        for number in list(NUMERALS.values()) + [ONE]:
            for case in [''] + [spec.VERBOSE['CASE.' + c] for c in spec.CASES]:
                for animality, gender, count, mode, extra in itertools.product(
                        ['', 'од', 'но'], ['', 'мр', 'ср', 'жр'], ['', 'ед', 'мн'], ['', 'сзв', 'пзв'], EXTRA[type]):
                    text = ','.join(x for x in (case, animality, gender, count, mode, extra) if x)
                    ctx.run(dict(base, number=number, deps=['#', text]))
                    if extra == '' and (count == '' or ctx.tier == 'thorough'):
                        ctx.run(dict(base, number=number, deps=[text, '#']))

        for number in list(NUMERALS.values()) + [ONE]:
            for around in AROUND:
                for case in ('', 'дт', 'вн,но', 'вн,од', 'вн,жр', 'ср', 'пр,мр'):
                    for deps in ([case] + around, around + [case], around[:1] + [case] + around[1:]):
                        ctx.run(dict(base, number=number, deps=deps))

    def run_case(self, case, ctx):
        ctx.state()
        ctx.step()
        type = case['type']
        model_word = spec.W(type, labels(type), spec.props(*case['fixed']))
        n = case['number']
        if n not in self.numbers:
            self.numbers[n] = (spec.integer(n), a.constructors.construct_integer(n))
        key = (type, tuple(case['fixed']))
        if getattr(self, 'cached', (None,))[0] != key:
            self.cached = (key, a.word(model_word))
        slot_props = spec.slot_props(type, case['slot'])
        carried = case.get('carried', {})
        carried = {place: [v] if isinstance(v, str) else v for place, v in carried.items()}
        slot_props = spec.props(slot_props, *carried.get('form', ()))
        model_form = spec.F(model_word, slot_props)
        real_form = a.words.WordForm(self.cached[1], properties=a.properties(slot_props))
        model_externals = dict(OTHERS, **{'с': model_form, '#': self.numbers[n][0]})
        real_externals = dict(self.others, **{'с': real_form, '#': self.numbers[n][1]})
        if 'number' in carried:
            model_externals['#'] = spec.F(self.numbers[n][0].word, spec.props(*carried['number']))
            real_externals['#'] = a.words.WordForm(self.numbers[n][1].word, properties=a.properties(carried['number']))
        if 'ч' in case['deps']:
            model_externals['ч'] = spec.F(spec.W('NOUN', labels('NOUN'), spec.props(*carried.get('other word', ()))), spec.props(*carried.get('other form', ())))
            real_externals['ч'] = a.form(model_externals['ч'])
        text = '[#] [%s]' % '|'.join(['с'] + case['deps'])
        expected = a.model_outcome(lambda: spec.T(text, model_externals).substitute(model_externals, spec.D()))
        got = a.outcome(lambda: a.template(text, real_externals).substitute(real_externals, a.dictionary.Dictionary()))
        a.compare('%s of %s %s, fixed %s' % (text, type, slot_props, case['fixed']), expected, got)
