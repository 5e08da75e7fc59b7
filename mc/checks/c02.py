"""C02: layout of forms, stored numbers and identifiers against the documented ones."""
from mc import adapter as a, core, names, spec


class Check_(core.Check):
    id = 'C02'
    rule = ('states are single facts of the vocabulary: every slot, every value, every stored number (also around the '
            'known ranges), every identifier alone and in ordered pairs, every number of forms')

    def shards(self, tier):
        for type in spec.TYPES:
            yield {'kind': 'layout', 'type': type}
            yield {'kind': 'count', 'type': type, 'extra': 20 if tier == 'quick' else 600}
        yield {'kind': 'values'}
        yield {'kind': 'categories'}
        yield {'kind': 'numbers'}
        for lo, hi in core.chunks(8, len(spec.VALUES)):
            yield {'kind': 'identifiers', 'range': [lo, hi], 'triples': tier == 'thorough'}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'layout':
            ctx.run({'kind': 'size', 'type': shard['type']})
            for prefix in (None, '', 'п-'):
                for suffix in (None, '', '-с'):
                    for value in [None] + spec.VALUES:
                        ctx.run({'kind': 'sample', 'type': shard['type'], 'prefix': prefix, 'suffix': suffix, 'value': value})
            for i in range(spec.FORMS_NUMBER[shard['type']]):
                ctx.run({'kind': 'slot', 'type': shard['type'], 'slot': i})
        elif kind == 'count':
            for n in range(spec.FORMS_NUMBER[shard['type']] + shard['extra']):
                ctx.run({'kind': 'count', 'type': shard['type'], 'count': n})
            m = spec.FORMS_NUMBER[shard['type']]
            for n in sorted({0, 1, 2, 3, 6, m // 3, m // 2, m - 6, m - 3, m - 2, m - 1, m, m + 1, m + 2, m + 3, m + 6, m * 2} | set(spec.FORMS_NUMBER.values())):
                if n >= 0:
                    for v in spec.VALUES:
                        ctx.run({'kind': 'count', 'type': shard['type'], 'count': n, 'fixed': [v]})
                    ctx.run({'kind': 'count', 'type': shard['type'], 'count': n, 'fixed': ['%s.%s' % (rel, spec.NAMES[rel][0]) for rel in spec.NAMES]})
                    for text in ('', ' ', '\u0436' * 40):
                        ctx.run({'kind': 'count', 'type': shard['type'], 'count': n, 'text': text})
        elif kind == 'values':
            for rel in spec.RELATIONS:
                ctx.run({'kind': 'relation', 'relation': rel})
            for v in spec.VALUES:
                ctx.run({'kind': 'value', 'value': v})
        elif kind == 'categories':
            ctx.run({'kind': 'categories'})
        elif kind == 'numbers':
            for category in range(-2, 30):
                for value in range(-2, 16):
                    ctx.run({'kind': 'number', 'category': category, 'value': value})
        else:
            for v in spec.VALUES[shard['range'][0]:shard['range'][1]]:
                ctx.run({'kind': 'identifiers', 'values': [v]})
                for w in spec.VALUES:
                    ctx.run({'kind': 'identifiers', 'values': [v, w]})
                    if shard['triples']:
                        for x in spec.VALUES[::3]:
                            ctx.run({'kind': 'identifiers', 'values': [v, w, x]})

    def run_case(self, case, ctx):
        ctx.state(str(case))
        ctx.step()
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def case_size(self, case, ctx):
        type = case['type']
        a.equal('number of forms', spec.FORMS_NUMBER[type], a.words.Word.get_forms_number(a.TYPE[type]))
        a.equal('schema', list(spec.SCHEMA[type]), [rel.__name__ for rel in a.TYPE[type].schema])
        a.equal('categories of words of type %s' % type, names.WORD_PROPERTIES[type],
                {rel.__name__: required for rel, required in a.TYPE[type].properties.items()})
        a.equal('number of keys', spec.FORMS_NUMBER[type], len(a.words.Word.get_keys(a.TYPE[type])))

    def case_sample(self, case, ctx):
        # a sample word names in every form the meaning of its slot
        type, options = case['type'], {k: case[k] for k in ('prefix', 'suffix') if case[k] is not None}
        if case['value'] is not None:
            options['properties'] = a.words.Properties(a.VALUE[case['value']])
        word = a.words.Word.create_test_word(a.TYPE[type], **options)
        prefix, suffix = options.get('prefix', 'w-'), options.get('suffix', '')
        a.equal('forms of a sample word', [prefix + ','.join(spec.VERBOSE['%s.%s' % (rel, name)] for rel, name in zip(spec.SCHEMA[type], slot) if name) + suffix
                                           for slot in spec.SLOTS[type]], list(word.forms))
        a.equal('type of a sample word', type, word.type.name)
        if case['value'] is not None:
            rel, name = spec.split(case['value'])
            a.equal('%s of a sample word' % rel, name, a.observe(word.properties).get(rel))

    def case_slot(self, case, ctx):
        type, i = case['type'], case['slot']
        key = a.words.Word.get_keys(a.TYPE[type])[i]
        a.equal('meaning of slot', list(spec.SLOTS[type][i]), [None if p is None else p.name for p in key])
        # observable consequence: the form stored at this position answers to exactly that meaning
        word = a.words.Word(a.TYPE[type], [('x' if k == i else '-') for k in range(spec.FORMS_NUMBER[type])])
        ctx.step(2)
        a.equal('form at slot', 'x', word.form(a.properties(spec.slot_props(type, i))))
        a.equal('forms at slot', 1, sum(1 for f in word.all_forms() if f.form == 'x'))

    def case_count(self, case, ctx):
        type, n = case['type'], case['count']
        fixed, text = case.get('fixed', []), case.get('text', 'f')
        if fixed:
            got = a.outcome(a.words.Word, type=a.TYPE[type], forms=[text] * n, properties=a.properties(fixed))
        else:
            got = a.outcome(a.words.Word, type=a.TYPE[type], forms=[text] * n)
        ctx.outcome(got[0])
        if n == spec.FORMS_NUMBER[type]:
            a.equal('right number of forms', 'ok', got[0])
        else:
            a.equal('wrong number of forms', ('err', 'WrongFormsNumberError'), got[:2])
            if str(n) not in got[2] or str(spec.FORMS_NUMBER[type]) not in got[2]:
                raise core.Mismatch('error does not name both numbers', [n, spec.FORMS_NUMBER[type]], got[2])
        data = {'type': spec.TYPE_NUMBER[type], 'forms': [text] * n, 'properties': spec.serialize_props(spec.props(*fixed))}
        got = a.outcome(a.words.Word.deserialize, data)
        a.equal('stored word with %d forms' % n, 'ok' if n == spec.FORMS_NUMBER[type] else 'err', got[0])

    def case_relation(self, case, ctx):
        rel = case['relation']
        a.equal('values of %s' % rel, [tuple(x) for x in spec.RELATIONS[rel]],
                [(x.name, x.value, x.verbose_id) for x in a.REL[rel].records])
        empty = a.words.Properties()
        default = empty.get(a.REL[rel])
        a.equal('default of %s' % rel, spec.DEFAULT[rel], None if default is None else default.name)

    def case_value(self, case, ctx):
        v = case['value']
        rel, name = spec.split(v)
        category, number = spec.CATEGORY[rel], spec.NUMBER_OF[v]
        a.equal('stored data', {category: number}, a.words.Properties(a.VALUE[v]).serialize())
        a.equal('category of %s' % rel, [(category,) + names.CATEGORIES[rel]],
                [(t.value, t.name, t.text) for t in a.r.PROPERTY_TYPE.records if t.relation is a.REL[rel]])
        a.equal('Russian name of %s' % v, names.NAMES[spec.VERBOSE[v]], a.VALUE[v].text)
        a.equal('value with the name %s' % name, True, getattr(a.VALUE[v], 'is_%s' % name) and
                not any(getattr(a.VALUE[v], 'is_%s' % other) for other in spec.NAMES[rel] if other != name))
        a.equal('value of number %s' % number, True, a.REL[rel](number) is a.VALUE[v])
        if rel == 'WORD_TYPE':
            w = a.word(spec.W(name, ['x'] * spec.FORMS_NUMBER[name]))
            a.equal('stored type', number, w.serialize()['type'])

    def case_categories(self, case, ctx):
        # a category without a number in stored data, or a number without a category, would lose data
        a.equal('categories', [(n,) + names.CATEGORIES[rel] for rel, n in spec.CATEGORY.items()],
                [(t.value, t.name, t.text) for t in a.r.PROPERTY_TYPE.records])
        presets = {}
        for value, implied in a.restrictions.PRESETS.items():
            presets[[v for v in spec.VALUES if a.VALUE[v] is value][0]] = [v for v in spec.VALUES if a.VALUE[v] is implied][0]
        a.equal('presets', names.PRESETS, presets)

    def case_number(self, case, ctx):
        category, value = case['category'], case['value']
        expected = {}
        for rel, c in spec.CATEGORY.items():
            for name, number, _ in spec.RELATIONS[rel]:
                if c == category and number == value:
                    expected = {rel: name}
        for key in (category, str(category)):
            a.equal('meaning of stored %r: %r' % (key, value), expected,
                    a.observe(a.words.Properties.deserialize({key: value})))
        ctx.outcome('known' if expected else 'ignored')

    def case_identifiers(self, case, ctx):
        values = case['values']
        text = ','.join(spec.VERBOSE[v] for v in values)
        a.equal('identifiers %s' % text, spec.props(*values),
                a.observe(a.templates.Substitution.parse_properties(text)))
