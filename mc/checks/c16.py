"""C16: migrations of stored words."""
import copy
import importlib
import itertools
import json

from mc import adapter as a, core, isolate, spec

N, CASES, GENDERS, ANIM, PERSONS = 'NUMBER', spec.CASES, spec.GENDERS, spec.ANIMALITIES, ('FIRST', 'SECOND', 'THIRD')
MODULES = {1: 'm_0001_include_short_forms_in_full', 2: 'm_0002_countable_noun_form', 3: 'm_0003_change_verb_forms',
           4: 'm_0004_new_preposition_form', 5: 'm_0005_remove_time_participle_property', 6: 'm_0006_per_word_type_restrictions',
           7: 'm_0007_reduce_words_forms', 8: 'm_0008_lower_animiality_nearest_priority', 9: 'm_0009_pronoun_modernization'}

# ------------------------------------------------------------------------------------------ stored layouts
# slot -> meaning (dict), None for positions of the list that have no meaning


def full(names, combos):
    return [{n: v for n, v in zip(names, c) if v is not None} for c in combos]


def declension_anim_last(**fixed):
    """animality varies fastest"""
    for case in CASES:
        for gender in GENDERS:
            for anim in ANIM:
                yield dict(fixed, NUMBER='SINGULAR', CASE=case, GENDER=gender, ANIMALITY=anim)
    for case in CASES:
        for anim in ANIM:
            yield dict(fixed, NUMBER='PLURAL', CASE=case, ANIMALITY=anim)


def short(rel):
    return [{rel: 'SHORT', 'NUMBER': 'SINGULAR', 'GENDER': g} for g in GENDERS] + [{rel: 'SHORT', 'NUMBER': 'PLURAL'}]


def verb_v6():
    yield {'VERB_FORM': 'INFINITIVE'}
    for g in GENDERS:
        yield {'VERB_FORM': 'INDICATIVE', 'TIME': 'PAST', 'NUMBER': 'SINGULAR', 'GENDER': g}
    yield {'VERB_FORM': 'INDICATIVE', 'TIME': 'PAST', 'NUMBER': 'PLURAL'}
    for time in ('PRESENT', 'FUTURE'):
        for number in ('SINGULAR', 'PLURAL'):
            for person in PERSONS:
                yield {'VERB_FORM': 'INDICATIVE', 'TIME': time, 'NUMBER': number, 'PERSON': person}
    for _ in range(4):
        yield None      # conditional mood, dropped
    for number in ('SINGULAR', 'PLURAL'):
        for person in PERSONS:
            yield {'VERB_FORM': 'IMPERATIVE', 'NUMBER': number, 'PERSON': person}


def participle_v6():
    for time in ('PAST', 'PRESENT', 'FUTURE'):
        for _ in range(48):
            yield None      # voice, dropped before
        for m in declension_anim_last(PARTICIPLE_FORM='FULL', TIME=time):
            yield m
    for m in short('PARTICIPLE_FORM'):
        yield m


def pronoun_72():
    for case in CASES:
        for person in PERSONS:
            for gender in GENDERS:
                yield {'NUMBER': 'SINGULAR', 'CASE': case, 'PERSON': person, 'GENDER': gender}
    for case in CASES:
        for person in PERSONS:
            yield {'NUMBER': 'PLURAL', 'CASE': case, 'PERSON': person}


CURRENT = {t: [spec.slot_props(t, i) for i in range(spec.FORMS_NUMBER[t])] for t in spec.TYPES}
LAYOUT = {6: dict(CURRENT,
                  ADJECTIVE=[dict(m, GRADE=g) for m in declension_anim_last(ADJECTIVE_FORM='FULL') for g in ('POSITIVE', 'COMPARATIVE', 'SUPERLATIVE')] +
                  short('ADJECTIVE_FORM'),
                  PRONOUN=list(pronoun_72()), VERB=list(verb_v6()), PARTICIPLE=list(participle_v6())),
          7: dict(CURRENT,
                  ADJECTIVE=list(declension_anim_last(ADJECTIVE_FORM='FULL', GRADE='POSITIVE')) +
                  [{'ADJECTIVE_FORM': 'FULL', 'GRADE': 'COMPARATIVE'}] +
                  list(declension_anim_last(ADJECTIVE_FORM='FULL', GRADE='SUPERLATIVE')) + short('ADJECTIVE_FORM'),
                  PRONOUN=list(pronoun_72()),
                  PARTICIPLE=[m for t in ('PAST', 'PRESENT', 'FUTURE') for m in declension_anim_last(PARTICIPLE_FORM='FULL', TIME=t)] +
                  short('PARTICIPLE_FORM')),
          8: dict(CURRENT, PRONOUN=list(pronoun_72())),
          9: CURRENT}
assert {t: len(LAYOUT[6][t]) for t in ('ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE')} == {'ADJECTIVE': 148, 'PRONOUN': 72, 'VERB': 27, 'PARTICIPLE': 292}
assert all(len(LAYOUT[v][t]) == len(CURRENT[t]) for v in (7, 8) for t in spec.TYPES if t != 'PRONOUN')
TABLES = (7, 8, 9)


def sources(version, type):
    """for every slot of the layout made by migration `version`: the old slots that have its meaning"""
    result = []
    old = LAYOUT[version - 1][type]
    for meaning in LAYOUT[version][type]:
        same = [i for i, m in enumerate(old) if m == meaning]
        if not same:
            # the new slot stands for several old ones (its meaning is less specific) ...
            same = [i for i, m in enumerate(old) if m is not None and all(m.get(r) == v for r, v in meaning.items())]
        if not same:
            # ... or is one of several that replace an old one, in the third person if the old one had a person
            same = [i for i, m in enumerate(old) if m is not None and all(meaning.get(r, v) == v for r, v in m.items() if r != 'PERSON') and
                    m.get('PERSON', 'THIRD') == 'THIRD']
        assert same, (version, type, meaning)
        result.append(same)
    return result


SOURCES = {(v, t): sources(v, t) for v in TABLES for t in spec.TYPES}
PROPERTIES = [{}, {'0': 1}, {'1': 1, '3': 2}, {'5': 1, '7': 1}, {'15': 1, '5': 3, '12': 1}, {'99': 5}, {'1': 0, '3': 0, '2': 0, '6': 0}] + \
             [{str(p): value} for p in range(20) for value in range(4)] + [{str(p): p % 3 for p in range(24)}, {str(p): 0 for p in range(24)[::-1]}]
FEW = 7
DECLENSION = [(number, case, gender, anim) for number in ('SINGULAR', 'PLURAL') for case in CASES
              for gender in (GENDERS if number == 'SINGULAR' else (None,)) for anim in ANIM]
TIMES_VOICES = [(time, voice) for time in ('PAST', 'PRESENT', 'FUTURE') for voice in ('DIRECT', 'REVERSE')]
# layouts before and after migration 1: short forms were included
BEFORE_FIRST = {'ADJECTIVE': full(('NUMBER', 'CASE', 'GENDER', 'ANIMALITY', 'GRADE'), [d + (grade,) for d in DECLENSION for grade in ('POSITIVE', 'COMPARATIVE', 'SUPERLATIVE')]),
                'PARTICIPLE': full(('TIME', 'VOICE', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY'),
                                   [tv + d for tv in TIMES_VOICES[:2] for d in DECLENSION] +
                                   [tv + (number, case, None, anim) for tv in TIMES_VOICES[2:] for number in ('SINGULAR', 'PLURAL') for case in CASES for anim in ANIM])}
AFTER_FIRST = {'ADJECTIVE': [('FULL',) + d + (grade,) for d in DECLENSION for grade in ('POSITIVE', 'COMPARATIVE', 'SUPERLATIVE')] +
               [('SHORT', number, None, gender, None, None) for number, gender in [('SINGULAR', g) for g in GENDERS] + [('PLURAL', None)]],
               'PARTICIPLE': [('FULL',) + tv + d for tv in TIMES_VOICES for d in DECLENSION] +
               [('SHORT', None, None, number, None, gender, None) for number, gender in [('SINGULAR', g) for g in GENDERS] + [('PLURAL', None)]]}
SCHEMA_FIRST = {'ADJECTIVE': ('ADJECTIVE_FORM', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY', 'GRADE'),
                'PARTICIPLE': ('PARTICIPLE_FORM', 'TIME', 'VOICE', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY')}
FIRST = {'ADJECTIVE': 144, 'PARTICIPLE': 192}     # numbers of forms before migration 1
CHAINS = {6: (7, 8, 9), 7: (8, 9), 8: (9,)}


def module(number):
    return importlib.import_module('utg.migrations.' + MODULES[number])


class Check_(core.Check):
    id = 'C16'
    rule = ('state = (migration or chain, part of speech, pattern of empty and distinct forms, properties); the mapping of every slot is '
            'compared with the one that follows from the meanings of the slots in the two layouts')
    assumptions = ('the layouts of versions 6-9 are those of the shipped tables, written down here as rules', )

    def shards(self, tier):
        yield {'kind': 'import'}
        yield {'kind': 'structure', 'wide': tier == 'thorough'}
        for t in spec.TYPES:
            yield {'kind': 'tables', 'type': t}
        for t in ('ADJECTIVE', 'PARTICIPLE'):
            yield {'kind': 'first', 'type': t}
            for v in TABLES:
                n = len(LAYOUT[v - 1][t])
                for lo, hi in core.chunks(8 if tier == 'thorough' else 4, n):
                    yield {'kind': 'single', 'type': t, 'version': v, 'range': [lo, hi], 'pairs': tier == 'thorough'}
            for v in CHAINS:
                n = len(LAYOUT[v][t])
                for lo, hi in core.chunks(8, n):
                    yield {'kind': 'chain', 'type': t, 'version': v, 'range': [lo, hi]}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'import':
            for number in MODULES:
                ctx.run({'kind': 'import', 'number': number})
            return
        if kind == 'first':
            ctx.run({'kind': 'meaning', 'type': shard['type']})
            for p in range(FEW):
                for i in range(-2, FIRST[shard['type']]):
                    if i < 0 or p == 0:
                        ctx.run({'kind': 'first', 'type': shard['type'], 'slot': i, 'properties': p})
            return
        if kind == 'tables':
            for number in (1, 2, 4, 5) + TABLES:
                ctx.run({'kind': 'tables', 'number': number, 'type': shard['type']})
            return
        if kind == 'structure':
            for number in (1, 2, 4, 5):
                for t in spec.TYPES:
                    if number == 1 and t in ('ADJECTIVE', 'PARTICIPLE'):
                        continue        # a recorded finding: laid out by the running tables
                    n = {1: 12, 2: 12, 4: 2, 5: 18}[number]
                    patterns = list(itertools.product((0, 1), repeat=n)) if n <= 12 else [(1,) * n, (0,) * n]
                    if len(patterns) > 64 and not shard['wide']:
                        patterns = [tuple(1 if x == i else 0 for x in range(n)) for i in range(n)] + \
                                   [tuple(0 if x == i else 1 for x in range(n)) for i in range(n)] + [(1,) * n, (0,) * n]
                    for pattern in patterns:
                        for p in range(len(PROPERTIES) if all(pattern) else FEW):
                            for patches in (None, {}, 'patch'):
                                ctx.run({'kind': 'structure', 'number': number, 'type': t, 'pattern': pattern, 'properties': p,
                                         'patches': patches})
            return
        t, v = shard['type'], shard['version']
        key = 'single' if kind == 'single' else 'chain'
        n = len(LAYOUT[v - 1 if kind == 'single' else v][t])
        if shard['range'][0] == 0:
            for p in range(len(PROPERTIES)):
                if FEW <= p < len(PROPERTIES) - 2 and t in ('ADJECTIVE', 'PARTICIPLE', 'PRONOUN'):
                    continue
                for shape in ('distinct', 'equal', 'blank')[:3 if p < FEW else 1]:
                    ctx.run({'kind': key, 'version': v, 'type': t, 'shape': shape, 'slots': [], 'properties': p})
        for i in range(*shard['range']):
            for shape in ('only', 'missing', 'odd'):
                ctx.run({'kind': key, 'version': v, 'type': t, 'shape': shape, 'slots': [i], 'properties': 1})
            if shard.get('pairs'):
                for j in range(i):
                    for shape in ('only', 'missing'):
                        ctx.run({'kind': key, 'version': v, 'type': t, 'shape': shape, 'slots': [j, i], 'properties': 1})

    def finding_key(self, case, info):
        if case['kind'] == 'import' and case['number'] in (3, 6):
            return 'import-m_%04d' % case['number']
        if case['kind'] == 'tables' and case['number'] == 1 and case['type'] in ('ADJECTIVE', 'PARTICIPLE'):
            return 'm_0001-running-tables'
        return None

    def run_case(self, case, ctx):
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def forms(self, n, shape, slots):
        distinct = ['ф%d' % i for i in range(n)]
        if shape == 'equal':
            return ['ф'] * n
        if shape == 'blank':
            return [''] * n
        for i, f in enumerate(distinct):
            if shape == 'only' and i not in slots or shape == 'missing' and i in slots:
                distinct[i] = ''
            elif shape == 'odd' and i in slots:
                distinct[i] = 'Ф%d-é ' % i
        return distinct

    def stored(self, type, forms, p):
        return {'type': spec.TYPE_NUMBER[type], 'forms': list(forms), 'properties': dict(PROPERTIES[p]), 'patches': {}, 'id': 17}

    def others(self, what, before, after, forms=True):
        rest = lambda d: {k: v for k, v in d.items() if k != 'forms'}
        a.equal(what + 'everything but the forms', rest(before), rest(after))

    def step_forms(self, version, type, forms):
        """acceptable texts of every new slot"""
        return [sorted({forms[i] for i in s}) for s in SOURCES[version, type]]

    # ------------------------------------------------------------------------------------ cases
    def case_import(self, case, ctx):
        ctx.state(('import', case['number']))
        ctx.step()

        def attempt():
            try:
                module(case['number']).migrate
            except Exception as e:
                return '%s: %s' % (type(e).__name__, e)
            return None
        problem = isolate.run(attempt)
        if problem:
            raise core.Mismatch('migration %s cannot be used' % MODULES[case['number']], 'module with migrate()', problem)

    def case_single(self, case, ctx):
        v, t = case['version'], case['type']
        forms = self.forms(len(LAYOUT[v - 1][t]), case['shape'], case['slots'])
        ctx.state((v, t, case['shape'], tuple(case['slots']), case['properties']))
        ctx.step(len(LAYOUT[v][t]))
        before = self.stored(t, forms, case['properties'])
        original = copy.deepcopy(before)
        after = module(v).migrate(before)
        self.others('migration %d: ' % v, original, after)
        self.texts('migration %d of %s: ' % (v, t), LAYOUT[v][t], self.step_forms(v, t, forms), after['forms'])
        again = module(v).migrate(copy.deepcopy(original))
        a.equal('second migration of the same data', after, again)
        snapshot = copy.deepcopy(after)
        for other in (t, 'ADJECTIVE'):
            module(v).migrate(self.stored(other, ['х%d' % i for i in range(len(LAYOUT[v - 1][other]))], 2))
        a.equal('migrated word after another word was migrated', snapshot, after)
        a.equal('word migrated after another one', snapshot, module(v).migrate(copy.deepcopy(original)))

    def texts(self, what, layout, accepted, got):
        a.equal(what + 'number of forms', len(layout), len(got))
        for meaning, texts, text in zip(layout, accepted, got):
            if text not in texts:
                raise core.Mismatch(what + 'form with meaning %s' % meaning, texts, text)

    def case_chain(self, case, ctx):
        v, t = case['version'], case['type']
        forms = self.forms(len(LAYOUT[v][t]), case['shape'], case['slots'])
        ctx.state(('chain', v, t, case['shape'], tuple(case['slots']), case['properties']))
        data = original = self.stored(t, forms, case['properties'])
        # positions of the original list that may end up in each slot
        reach = [[i] for i in range(len(forms))]
        for m in CHAINS[v]:
            data = json.loads(json.dumps(module(m).migrate(copy.deepcopy(data))))
            reach = [sorted({o for i in s for o in reach[i]}) for s in SOURCES[m, t]]
            ctx.step(len(reach))
        self.others('chain: ', original, data)
        self.texts('chain from version %d of %s: ' % (v, t), CURRENT[t], [[forms[i] for i in r] for r in reach], data['forms'])
        word = a.words.Word.deserialize(data)
        for i, r in enumerate(reach):
            text = word.form(a.properties(CURRENT[t][i])) if not case['properties'] else word.forms[i]
            if text not in [forms[x] for x in r]:
                raise core.Mismatch('form of the loaded word with meaning %s' % CURRENT[t][i], [forms[x] for x in r], text)

    def case_first(self, case, ctx):
        """migration 1 of the parts of speech it concerns: what holds whatever the tables are"""
        t, slot = case['type'], case['slot']
        ctx.state(('first', t, slot, case['properties']))
        n = FIRST[t]
        ctx.step(n)
        forms = {-1: ['ф%d' % i for i in range(n)], -2: [''] * n}.get(slot) or ['ф' if i == slot else '' for i in range(n)]
        before = self.stored(t, forms, case['properties'])
        original = copy.deepcopy(before)
        after = module(1).migrate(before)
        self.others('migration 1: ', original, after)
        whole = module(1).migrate(self.stored(t, ['ф%d' % i for i in range(n)], 0))['forms']
        if len(whole) == n:
            raise core.Mismatch('migration 1 of %s' % t, 'full and short forms', whole)
        a.equal('migration 1 of %s: forms of %s' % (t, forms), [forms[int(text[1:])] for text in whole], after['forms'])

    def case_meaning(self, case, ctx):
        """migration 1 with the tables of its own version as the running ones: where the forms go"""
        t = case['type']
        ctx.state(('meaning', t))
        old, new = BEFORE_FIRST[t], full(SCHEMA_FIRST[t], AFTER_FIRST[t])
        ctx.step(len(new))

        def migrate():
            from utg import data, relations
            m = module(1)
            table = {tuple(None if name is None else getattr(getattr(relations, rel), name) for rel, name in zip(SCHEMA_FIRST[t], key)): i
                     for i, key in enumerate(AFTER_FIRST[t])}
            data.WORDS_CACHES[getattr(relations.WORD_TYPE, t)] = table
            return m.migrate(self.stored(t, ['ф%d' % i for i in range(len(old))], 0))
        got = isolate.run(migrate)['forms']
        if len(got) != len(new):
            return      # the migration does not use the running tables (any more): see case_tables
        for meaning, text in zip(new, got):
            rest = {r: v for r, v in meaning.items() if r not in ('ADJECTIVE_FORM', 'PARTICIPLE_FORM')}
            # the same meaning; for a new slot, one of the nearest old ones
            same = [sum(m.get(r) == rest.get(r) for r in SCHEMA_FIRST[t][1:]) for m in old]
            accepted = ['ф%d' % i for i, n in enumerate(same) if n == max(same)]
            if text not in accepted:
                raise core.Mismatch('migration 1 of %s: form with meaning %s' % (t, meaning), accepted[:6], text)

    def case_structure(self, case, ctx):
        number, t = case['number'], case['type']
        forms = ['ф%d' % i if on else '' for i, on in enumerate(case['pattern'])]
        ctx.state((number, t, tuple(case['pattern']), case['properties'], str(case['patches'])))
        ctx.step()
        before = self.stored(t, forms, case['properties'])
        patch = ['патч%d' % i for i in range(6)]
        before['patches'] = {7: {'forms': list(patch)}} if case['patches'] == 'patch' else case['patches']
        original = copy.deepcopy(before)
        after = module(number).migrate(before)
        expected = copy.deepcopy(original)
        if number == 2 and t == 'NOUN':
            expected['forms'] = forms + (patch if case['patches'] == 'patch' else forms[6:])
        elif number == 4 and t == 'PREPOSITION':
            expected['forms'] = forms + forms[-1:]
        elif number == 5 and t == 'PARTICIPLE':
            expected['properties'].pop('5', None)
        a.equal('migration %d of %s' % (number, t), expected, after)
        if number == 2 and t == 'NOUN' or number == 4 and t == 'PREPOSITION':
            for m in TABLES:
                after = module(m).migrate(after)
            expected = [expected['forms'][s[0]] for s in SOURCES[7, t]]
            a.equal('chain from migration %d of %s' % (number, t), expected, after['forms'])
            word = a.words.Word.deserialize(after)
            a.equal('loaded word', expected, list(word.forms))

    def case_tables(self, case, ctx):
        """result with other running tables"""
        number, t = case['number'], case['type']
        ctx.state(('tables', number, t))
        ctx.step(2)

        def migrate(change):
            from utg import data
            n = {1: FIRST.get(t, 12), 2: 12, 4: 2, 5: 18}.get(number) or len(LAYOUT[number - 1][t])
            m = module(number)
            if change:
                for table in getattr(data, "WORDS_CACHES", {}).values():
                    for k in list(table)[::2]:
                        del table[k]
            return m.migrate({'type': spec.TYPE_NUMBER[t], 'forms': ['ф%d' % i for i in range(n)], 'properties': {}, 'patches': {}})
        results = []
        for change in (False, True):
            try:
                results.append(isolate.run(migrate, change))
            except core.Mismatch as e:
                results.append(str(e.got)[-300:])
        if results[0] != results[1] or not isinstance(results[0], dict):
            raise core.Mismatch('migration %d of %s depends on the running tables' % (number, t), results[0], results[1])
