"""C06: serialisation round trips through JSON, compared by behaviour."""
import itertools
import json

from mc import adapter as a, core, pools, spec
from mc.checks import c04, c15

PAIRS = [list(c) for c in itertools.combinations(spec.VALUES, 2) if spec.split(c[0])[0] != spec.split(c[1])[0]]


ODD = ['', ' ', ' x', 'x ', '\tx\n', '"', '\\', "'", 'Ёж', 'ёЖ', '\u0000', '\u00a0x', '\u2028', '%s', '%', '[h]', '0', 'null', '\U0001f600', 'e\u0301', '\ufeffx', '\ud800',
       'два слова', '-', 'ß', 'x' * 300]


def through_json(data):
    return json.loads(json.dumps(data))


class Check_(core.Check):
    id = 'C06'
    rule = ('states: property sets, words, substitutions and templates of the enumerated families; each is serialised, '
            'written as JSON, read back, compared for equality and for behaviour and serialised again')

    def prepare(self, tier):
        self.externals = {name: a.form(f) for name, f in c04.EXTERNALS.items()}
        self.model_dictionary = spec.D(c04.DICTIONARY)
        self.dictionary = a.make_dictionary(c04.DICTIONARY)
        self.stored_dictionary = a.dictionary.Dictionary(
            words=[a.words.Word.deserialize(through_json(a.word(w).serialize())) for w in c04.DICTIONARY])

    def shards(self, tier):
        for lo, hi in core.chunks(8, len(PAIRS)):
            yield {'kind': 'props', 'range': [lo, hi], 'triples': tier == 'thorough'}
        for type in spec.TYPES:
            yield {'kind': 'words', 'type': type, 'pairs': True if tier == 'thorough' or spec.FORMS_NUMBER[type] < 60 else False}
        yield {'kind': 'unknown'}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'kind': 'named', 'range': [lo, hi]}
        for i in range(8):
            yield {'kind': 'full', 'part': i, 'all': tier == 'thorough'}
        for lo, hi in core.chunks(8, 0x3000 if tier == 'quick' else 0x110000):
            yield {'kind': 'unicode', 'range': [lo, hi]}
        slaves = c04.SLAVE_IDS
        for s in slaves:
            yield {'kind': 'templates', 'slave': s, 'deps': 2 if tier == 'quick' else 2}
        for s in (c04.CORE_SLAVES if tier == 'quick' else slaves):
            yield {'kind': 'templates3', 'slave': s}
        yield {'kind': 'texts', 'length': 4 if tier == 'quick' else 5}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'props':
            if shard['range'][0] == 0:
                ctx.run({'kind': 'props', 'values': []})
                for v in spec.VALUES:
                    ctx.run({'kind': 'props', 'values': [v]})
            for pair in PAIRS[shard['range'][0]:shard['range'][1]]:
                ctx.run({'kind': 'props', 'values': pair})
                if shard['triples']:
                    for v in spec.VALUES:
                        ctx.run({'kind': 'props', 'values': pair + [v]})
        elif kind == 'words':
            type = shard['type']
            fixed = [[]] + [[v] for v in spec.VALUES] + (PAIRS if shard['pairs'] else PAIRS[::7])
            for f in fixed:
                ctx.run({'kind': 'word', 'type': type, 'fixed': f, 'empty': []})
            n = spec.FORMS_NUMBER[type]
            for i in range(n):
                ctx.run({'kind': 'word', 'type': type, 'fixed': [], 'empty': [i]})
                ctx.run({'kind': 'word', 'type': type, 'fixed': [], 'empty': [k for k in range(n) if k != i]})
            for i in sorted({0, 1, 2, n // 2, n - 1} & set(range(n))) if n > 20 else range(n):
                for x in range(len(ODD)):
                    ctx.run({'kind': 'word', 'type': type, 'fixed': [], 'empty': [], 'odd': {str(i): x}})
                    if n < 20:
                        for y in range(len(ODD)):
                            ctx.run({'kind': 'word', 'type': type, 'fixed': [], 'empty': [], 'odd': {str(i): x, str((i + 1) % n): y}})
        elif kind == 'full':
            for n, s in enumerate(c15.full_sets()):
                if n % 8 == shard['part']:
                    ctx.run({'kind': 'props', 'values': list(s)})
                    if n % 7 == 0 or shard['all']:
                        for type in spec.TYPES if n % 5 == 0 or shard['all'] else ('NOUN', 'VERB', 'PREPOSITION', 'TEXT'):
                            ctx.run({'kind': 'word', 'type': type, 'fixed': list(s), 'empty': []})
                        ctx.run({'kind': 'template', 'text': '[wnoun0|%s]' % ','.join(spec.VERBOSE[v] for v in s)})
                        ctx.run({'kind': 'template', 'text': '[wnoun0|%s|герой]' % '|'.join(spec.VERBOSE[v] for v in s)})
            for n in list(range(2, 30)) + [64, 100, 129]:
                if n % 8 == shard['part']:
                    for x in range(0, len(c04.DEPS), 3):
                        pieces = ['%d[%s|%s]' % (i, c04.SLAVE_IDS[(x + i) % len(c04.SLAVE_IDS)], c04.DEPS[(x + i * 3) % len(c04.DEPS)]) for i in range(n)]
                        ctx.run({'kind': 'template', 'text': ''.join(pieces)})
                        ctx.run({'kind': 'template', 'text': '[wnoun0|%s]' % '|'.join(c04.DEPS[(x + i) % len(c04.DEPS)] for i in range(n))})
        elif kind == 'unicode':
            for c in range(*shard['range']):
                ctx.run({'kind': 'char', 'char': c})
        elif kind == 'named':
            for i in range(*shard['range']):
                ctx.run({'kind': 'named', 'one': pools.NAMES[i], 'two': pools.FEW[i * 17 % len(pools.FEW)]})
        elif kind == 'unknown':
            for category in range(-1, 26):
                for value in range(-1, 13):
                    for base in ([], ['CASE.DATIVE', 'NUMBER.PLURAL'], ['GENDER.FEMININE', 'WORD_TYPE.VERB']):
                        ctx.run({'kind': 'unknown', 'category': category, 'value': value, 'base': base})
        elif kind == 'templates':
            for n in range(shard['deps'] + 1):
                for deps in itertools.product(c04.DEPS, repeat=n):
                    ctx.run({'kind': 'template', 'text': 'a%%[%s] [ %%s' % '|'.join((shard['slave'],) + deps)})
        elif kind == 'templates3':
            for deps in itertools.product(c04.CORE_DEPS, repeat=3):
                ctx.run({'kind': 'template', 'text': '[%s][герой]' % '|'.join((shard['slave'],) + deps)})
        else:
            pieces = ['[герой]', '[Wnoun3|герой]', '[нетслова]', '%', '%s', 'x', '[', '\n\u0001"\\', '[рд|рд|рд,дт]']
            for t in core.strings(pieces, shard['length']):
                ctx.run({'kind': 'template', 'text': ''.join(t)})

    def run_case(self, case, ctx):
        ctx.state(json.dumps(case))
        ctx.outcome(case['kind'])
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def case_props(self, case, ctx):
        model = spec.props(*case['values'])
        p = a.properties(case['values'])
        data = p.serialize()
        again = a.words.Properties.deserialize(through_json(data))
        ctx.step(3)
        a.equal('properties after round trip', model, a.observe(again))
        a.equal('equality after round trip', True, again == p and p == again and not (p != again))
        a.equal('original after round trip', model, a.observe(p))
        a.equal('data of the copy', data, again.serialize())
        a.equal('stored form', spec.serialize_props(model), data)
        direct = a.words.Properties.deserialize(data)
        a.equal('round trip without JSON', model, a.observe(direct))
        # what is done to the data afterwards concerns neither the original nor the copy
        a.spoil(data)
        ctx.step(3)
        a.equal('copy after its data were changed', model, a.observe(direct))
        a.equal('original after its data were changed', model, a.observe(p))
        a.equal('data asked again', spec.serialize_props(model), p.serialize())

    def case_word(self, case, ctx):
        type = case['type']
        forms = ['' if i in case['empty'] else f for i, f in enumerate(c04.labels(type))]
        for i, x in case.get('odd', {}).items():
            forms[int(i)] = ODD[x]
        model = spec.W(type, forms, spec.props(*case['fixed']))
        w = a.word(model)
        data = w.serialize()
        again = a.words.Word.deserialize(through_json(data))
        a.equal('word after round trip', model.key(), a.observe_word(again))
        a.equal('equality after round trip', True, again == w and w == again and not (w != again))
        a.equal('hash after round trip', hash(w), hash(again))
        a.equal('data of the copy', data, again.serialize())
        direct = a.words.Word.deserialize(data)
        a.equal('round trip without JSON', model.key(), a.observe_word(direct))
        a.spoil(data, keep=('forms',))
        a.equal('copy after its data were changed', model.key(), a.observe_word(direct))
        a.equal('original after its data were changed', model.key(), a.observe_word(w))
        a.equal('data asked again', spec.serialize_props(model.props), w.serialize()['properties'])
        ctx.step(3)
        for i in range(len(forms)):
            ctx.step()
            p = a.properties(spec.slot_props(type, i))
            a.equal('form %d of the copy' % i, model.text(spec.slot_props(type, i)), again.form(p))
        a.equal('normal form of the copy', model.normal(), again.normal_form())
        a.equal('syllables of the copy', model.syllables(), again.number_of_syllables)
        a.equal('fluent vowel of the copy', model.fluent(), again.has_fluent_vowel)

    def case_char(self, case, ctx):
        c = chr(case['char'])
        ctx.step(2)
        for text in (c, 'x' + c, c + 'x'):
            model = spec.W('TEXT', [text])
            again = a.words.Word.deserialize(through_json(a.word(model).serialize()))
            a.equal('word after round trip', model.key(), a.observe_word(again))
            t = a.template(text + '[т]' + text, ('т',))
            again = a.templates.Template.deserialize(through_json(t.serialize()))
            a.equal('equality after round trip', True, again == t)
            expected = a.model_outcome(lambda: spec.T(text + '[т]' + text, ('т',)).substitute({'т': spec.text_form('-')}, spec.D()))
            a.compare('text generated by the copy', expected, a.outcome(again.substitute, {'т': a.form(spec.text_form('-'))}, a.dictionary.Dictionary()))
        # the same character in the names of variables, on both sides of the bar, and in names only the dictionary knows
        name, other = ('x' + c).lower().strip(), (c + 'x').lower().strip()
        externals = {name: spec.text_form('1'), other: spec.text_form('2')}
        named = [spec.W('TEXT', [name]), spec.W('TEXT', [other])]
        known = spec.D(named)
        real_externals, real_known = {k: a.form(f) for k, f in externals.items()}, a.make_dictionary(named)
        for text in ('[x%s]' % c, '[%sx|x%s]' % (c, c), '[т|%sx][X%s]' % (c, c)):
            try:
                model = spec.T(text, externals)
            except spec.ModelError:
                continue
            t = a.template(text, externals)
            again = a.templates.Template.deserialize(through_json(t.serialize()))
            ctx.step(2)
            a.equal('equality of %r after round trip' % text, True, again == t)
            for e, r in ((externals, real_externals), ({}, {})):
                a.compare('text generated by the copy of %r' % text, a.model_outcome(model.substitute, e, known), a.outcome(again.substitute, r, real_known))
                a.equal('missing words of the copy of %r' % text, model.missing(e, known), again.get_undictionaried_words(r, real_known))

    def case_named(self, case, ctx):
        """odd names of words and variables"""
        one, two = case['one'], case['two']
        model = spec.W('NOUN', [one, two] + [''] * 15 + [two + one], {'GENDER': 'FEMININE'})
        again = a.words.Word.deserialize(through_json(a.word(model).serialize()))
        a.equal('word after round trip', model.key(), a.observe_word(again))
        a.equal('equality after round trip', True, again == a.word(model))
        externals = {one: c04.EXTERNALS['часы'], two: c04.EXTERNALS['пять']}
        real = {one: self.externals['часы'], two: self.externals['пять']}
        for names in ([], [one], [one, two]):
            for text in ('[%s]%s[%s|%s]' % (one, one, two, one), '[wnoun0|%s|%s|%s,%s]' % (one, two, one, two), '[%s|%s|рд|%s]' % (one, two, two)):
                parsed = a.model_outcome(lambda: spec.T(text, names))
                ctx.step()
                if parsed[0] == 'err':
                    continue
                t = a.template(text, names)
                copy = a.templates.Template.deserialize(through_json(t.serialize()))
                a.equal('equality of %r after round trip' % text, True, copy == t)
                a.equal('data of the copy', t.serialize(), copy.serialize())
                for given in (names, [one, two]):
                    e, r = {n: externals[n] for n in given}, {n: real[n] for n in given}
                    a.compare('text generated by the copy of %r' % text, a.model_outcome(parsed[1].substitute, e, self.model_dictionary),
                              a.outcome(copy.substitute, r, self.stored_dictionary))

    def case_unknown(self, case, ctx):
        base = spec.props(*case['base'])
        known = {(spec.CATEGORY[spec.split(v)[0]], spec.NUMBER_OF[v]): v for v in spec.VALUES}
        extra = known.get((case['category'], case['value']))
        stored = spec.serialize_props(base)
        if case['category'] in stored:
            return
        for order in (0, 1):
            data = {str(case['category']): case['value']} if order else {}
            data.update({str(k): v for k, v in stored.items()})
            data[str(case['category'])] = case['value']
            ctx.step(2)
            a.equal('properties from %r' % data, spec.props(base, extra), a.observe(a.words.Properties.deserialize(data)))
            w = a.words.Word.deserialize({'type': 6, 'forms': ['x'], 'properties': data})
            a.equal('word from %r' % data, spec.props(base, extra), a.observe(w.properties))

    def case_template(self, case, ctx):
        text = case['text']
        t = a.template(text, self.externals)
        data = t.serialize()
        again = a.templates.Template.deserialize(through_json(data))
        a.equal('equality after round trip', True, again == t and t == again)
        a.equal('data of the copy', data, again.serialize())
        expected = a.model_outcome(lambda: spec.T(text, c04.EXTERNALS).substitute(c04.EXTERNALS, self.model_dictionary))
        ctx.step(3)
        a.compare('text generated by the original', expected,
                  a.outcome(lambda: t.substitute(self.externals, self.dictionary)))
        a.compare('text generated by the copy', expected,
                  a.outcome(lambda: again.substitute(self.externals, self.dictionary)))
        a.compare('text generated by the copy with the stored dictionary', expected,
                  a.outcome(lambda: again.substitute(self.externals, self.stored_dictionary)))
        direct = a.templates.Template.deserialize(data)
        stored = json.dumps(data, sort_keys=True)
        a.spoil(data)
        for which, x in (('copy', direct), ('original', t)):
            a.equal('%s after its data were changed' % which, stored, json.dumps(x.serialize(), sort_keys=True))
            a.compare('text generated by the %s after its data were changed' % which, expected, a.outcome(lambda: x.substitute(self.externals, self.dictionary)))
        a.equal('missing words', spec.T(text, c04.EXTERNALS).missing(c04.EXTERNALS, self.model_dictionary),
                again.get_undictionaried_words(self.externals, self.stored_dictionary))

    def shrink(self, case):
        if case['kind'] == 'template':
            for i in range(len(case['text'])):
                yield dict(case, text=case['text'][:i] + case['text'][i + 1:])
        for field in ('values', 'fixed'):
            for i in range(len(case.get(field, ()))):
                yield dict(case, **{field: case[field][:i] + case[field][i + 1:]})
