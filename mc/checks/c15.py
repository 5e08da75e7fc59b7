"""C15: laws of property sets, equality and hashing of words and forms."""
import itertools

from mc import adapter as a, core, spec

REDUCED = ['CASE.NOMINATIVE', 'CASE.GENITIVE', 'NUMBER.SINGULAR', 'NUMBER.PLURAL', 'GENDER.MASCULINE', 'GENDER.FEMININE',
           'WORD_CASE.UPPER', 'ANIMALITY.INANIMATE', 'TIME.PAST', 'TIME.FUTURE', 'INTEGER_FORM.DUAL', 'WORD_TYPE.NOUN', 'WORD_TYPE.VERB',
           'PREPOSITION_FORM.SPECIAL', 'DEPENDENCY_MODE.SEMANTIC', 'ADJECTIVE_CATEGORY.RELATIVE', 'PRONOUN_CATEGORY.RELATIVE']
FOREIGN = [None, 0, 1, '', 'x', (), {}, frozenset(), 2.5]


def sets(values, size):
    """all sets of up to size values from different categories, as tuples"""
    for n in range(size + 1):
        for c in itertools.combinations(values, n):
            if len({spec.split(v)[0] for v in c}) == n:
                yield c


def full_sets():
    """sets that specify (almost) every category: all rotations of values, prefixes, suffixes and sets without one or two categories"""
    relations = list(spec.NAMES)
    result = set()
    for k in range(10):
        whole = tuple('%s.%s' % (rel, spec.NAMES[rel][k % len(spec.NAMES[rel])]) for rel in relations)
        result.add(whole)
        result.add(whole[::-1])
        for i in range(1, len(whole)):
            result.add(whole[:i])
            result.add(whole[i:])
            result.add(whole[:i] + whole[i + 1:])
            if k < 2:
                result.add(whole[i:] + whole[:i])
                result.add(whole[:i - 1] + whole[i + 1:])
                for name in spec.NAMES[relations[i]]:
                    result.add(whole[:i] + ('%s.%s' % (relations[i], name),) + whole[i + 1:])
    return sorted(result)


def key(p):
    return tuple(sorted(p.items()))


def pool():
    """words that differ from a base word in exactly one aspect, pairwise different"""
    result = []
    for type in spec.TYPES:
        forms = ['ф%d' % i for i in range(spec.FORMS_NUMBER[type])]
        result.append(spec.W(type, forms))
        for i in sorted({0, 1, len(forms) // 2, len(forms) - 1} & set(range(len(forms)))):
            for text in ('', 'ь', 'Ф%d' % i):
                result.append(spec.W(type, forms[:i] + [text] + forms[i + 1:]))
        if len(forms) > 1:
            result.append(spec.W(type, forms[1:] + forms[:1]))
            result.append(spec.W(type, [forms[0]] * len(forms)))
            # the same texts at other places
            n = len(forms)
            for i, j in sorted({(0, 1), (0, n - 1), (1, 2), (n - 2, n - 1), (n // 2, n - 1)}):
                if i < j < n and n > 2:
                    swapped = list(forms)
                    swapped[i], swapped[j] = swapped[j], swapped[i]
                    result.append(spec.W(type, swapped))
            if n > 3:
                result.append(spec.W(type, forms[::-1]))
                result.append(spec.W(type, forms[:1] + forms[:0:-1]))
                for i, j in ((1, 2), (2, 1), (n - 2, n - 1), (n - 1, n - 2)):     # one text twice, another one missing
                    result.append(spec.W(type, [forms[j] if k == i else f for k, f in enumerate(forms)]))
        for p in (['NUMBER.SINGULAR'], ['NUMBER.PLURAL'], ['GENDER.MASCULINE'], ['GENDER.FEMININE'], ['NUMBER.PLURAL', 'GENDER.FEMININE'],
                  ['WORD_CASE.UPPER'], ['ANIMALITY.INANIMATE'], ['CASE.DATIVE']):
            result.append(spec.W(type, forms, spec.props(*p)))
    return result


FORM_PROPS = [None, [], ['NUMBER.SINGULAR'], ['NUMBER.PLURAL'], ['CASE.DATIVE'], ['CASE.DATIVE', 'NUMBER.PLURAL'], ['WORD_CASE.UPPER'],
              ['GENDER.FEMININE']]


TEMPLATE_PIECES = ['[а]', '[б]', '[А]', '[ а ]', '[а|рд]', '[а|РД]', '[а|рд,мн]', '[а|мн,рд]', '[а|рд|мн]', '[а|мн|рд]', '[а|дт,рд,мн]', '[а|]', '[а|||]', '[а|загл]',
                   '[а|б]', '[а|б|рд]', '[а|рд|б]', '[а|б|б]', '[а|им]', '[б|рд]', '[в1]', '[в2]', 'а', ' ', '%', '%s', '[]', '']
TEMPLATE_TEXTS = [''.join(t) for t in itertools.product(TEMPLATE_PIECES[:-1], TEMPLATE_PIECES)] + ['', '[а][б][а]', '[б][а][а]', '[а][а][б]', '[а]%s[б]', '%[а]s[б]']
TEMPLATE_EXTERNALS = [('а', 'б'), ('а',)]


def parsed(text, externals):
    try:
        parts = spec.T(text, externals).parts
    except spec.ModelError:
        return None
    return [x if kind == 'text' else (x.id, x.deps) for kind, x in parts]


class Check_(core.Check):
    id = 'C15'
    rule = ('state = tuple of operands; every operand is built in several ways, every result is compared with the merge of the model, '
            'operands and hashes are compared before and after; words and forms: all pairs of the pool in cached and uncached states')

    def prepare(self, tier):
        self.sets = list(sets(spec.VALUES, 2))
        self.words = pool()
        self.templates = {}

    def shards(self, tier):
        for lo, hi in core.chunks(16, len(spec.VALUES)):
            yield {'kind': 'triples', 'range': [lo, hi]}
        for lo, hi in core.chunks(64, len(self.sets)):
            yield {'kind': 'sets', 'range': [lo, hi]}
        size = 3 if tier == 'quick' else 4
        for lo, hi in core.chunks(32, len(REDUCED if size == 4 else spec.VALUES)):
            yield {'kind': 'orders', 'range': [lo, hi], 'size': size}
        yield {'kind': 'single'}
        for i in range(16):
            yield {'kind': 'full', 'part': i}
        for lo, hi in core.chunks(16, len(self.words)):
            yield {'kind': 'words', 'range': [lo, hi]}
        for type in spec.TYPES:
            yield {'kind': 'forms', 'type': type}
        for i in range(16):
            yield {'kind': 'templates', 'part': i}
        if tier == 'thorough':
            reduced = list(sets(REDUCED, 3))
            for lo, hi in core.chunks(64, len(reduced)):
                yield {'kind': 'reduced', 'range': [lo, hi]}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'triples':
            for x in spec.VALUES[slice(*shard['range'])]:
                for y in spec.VALUES:
                    for z in spec.VALUES:
                        ctx.run({'kind': 'triple', 'values': [x, y, z]})
        elif kind == 'sets':
            for x in self.sets[slice(*shard['range'])]:
                for y in self.sets:
                    ctx.run({'kind': 'pair', 'sets': [x, y]})
        elif kind == 'reduced':
            reduced = list(sets(REDUCED, 3))
            for x in reduced[slice(*shard['range'])]:
                for y in reduced:
                    ctx.run({'kind': 'pair', 'sets': [x, y]})
        elif kind == 'orders':
            values = REDUCED if shard['size'] == 4 else spec.VALUES
            first = values[slice(*shard['range'])]
            for s in sets(values, shard['size']):
                if s and s[0] in first:
                    ctx.run({'kind': 'order', 'set': s})
        elif kind == 'single':
            for s in self.sets:
                ctx.run({'kind': 'single', 'set': s})
        elif kind == 'full':
            everything = full_sets()
            for n, x in enumerate(everything):
                if n % 16 == shard['part']:
                    ctx.run({'kind': 'single', 'set': x})
                    for y in everything if ctx.tier == 'thorough' else everything[n % 8::8] + everything[max(0, n - 20):n + 20]:
                        ctx.run({'kind': 'pair', 'sets': [x, y]})
                    for v in spec.VALUES:
                        ctx.run({'kind': 'pair', 'sets': [x, (v,)]})
                        ctx.run({'kind': 'pair', 'sets': [(v,), x]})
        elif kind == 'templates':
            known = [(t, e) for t in range(len(TEMPLATE_TEXTS)) for e in range(len(TEMPLATE_EXTERNALS))]
            known = [x for x in known if parsed(TEMPLATE_TEXTS[x[0]], TEMPLATE_EXTERNALS[x[1]]) is not None]
            for x in known[shard['part']::16]:
                ctx.run({'kind': 'templates', 'first': x, 'others': known if ctx.tier == 'thorough' else known[x[0] % 3::3] + known[max(0, x[0] - 9):x[0] + 9]})
        elif kind == 'words':
            for i in range(*shard['range']):
                ctx.run({'kind': 'word', 'word': i})
                for j in range(len(self.words)):
                    ctx.run({'kind': 'words', 'pair': [i, j]})
        else:
            chosen = [i for i, w in enumerate(self.words) if w.type == shard['type']]
            for i in chosen[:14]:
                for j in chosen[:14]:
                    for x in range(len(FORM_PROPS)):
                        for y in range(len(FORM_PROPS)):
                            ctx.run({'kind': 'forms', 'pair': [i, j], 'props': [x, y]})
            for i in chosen[:3] + chosen[-4:]:
                for j in chosen[:3] + chosen[-4:]:
                    for x, y, u, v in itertools.product(range(0, len(FORM_PROPS), 2), repeat=4):
                        ctx.run({'kind': 'forms', 'pair': [i, j], 'props': [x, y], 'inserted': [u, v]})

    def run_case(self, case, ctx):
        getattr(self, 'case_' + case['kind'])(case, ctx)

    # ------------------------------------------------------------------------------------- templates
    def case_templates(self, case, ctx):
        def build(x):
            key = TEMPLATE_TEXTS[x[0]], TEMPLATE_EXTERNALS[x[1]]
            if key not in self.templates:
                self.templates[key] = a.template(*key), parsed(*key)
            return self.templates[key]
        first, model = build(case['first'])
        texts = TEMPLATE_TEXTS[case['first'][0]], TEMPLATE_EXTERNALS[case['first'][1]]
        again = a.template(*texts)
        stored = a.templates.Template.deserialize(first.serialize())
        for other in case['others']:
            second, other_model = build(other)
            ctx.state((texts, tuple(other)))
            ctx.step(2)
            expected = model == other_model
            for x, y in ((first, second), (again, second), (second, stored)):
                got = [x == y, y == x, not x != y, not y != x]
                if got != [expected] * 4:
                    raise core.Mismatch('templates %r and %r: equal, equal the other way round, not unequal, not unequal the other way round'
                                        % (texts, (TEMPLATE_TEXTS[other[0]], TEMPLATE_EXTERNALS[other[1]])), [expected] * 4, got)

    # ------------------------------------------------------------------------------------- property sets
    def check(self, what, expected, p):
        a.equal(what, expected, a.observe(p))
        return p

    def same(self, what, *ps):
        for p in ps[1:]:
            if not (ps[0] == p) or not (p == ps[0]) or ps[0] != p or p != ps[0]:
                raise core.Mismatch('%s: sets with the same values are not equal' % what, str(ps[0]), str(p))
            if hash(ps[0]) != hash(p):
                raise core.Mismatch('%s: equal sets have different hashes' % what, hash(ps[0]), hash(p))

    def case_triple(self, case, ctx):
        P = a.words.Properties
        x, y, z = (a.VALUE[v] for v in case['values'])
        expected = spec.props(*case['values'])
        px, py, pz = P(x), P(y), P(z)
        ctx.state(key(expected))
        results = [P(x, y, z), px.clone(y, z), px.clone(py).clone(pz), px.clone(P(y, z)), P(px, None, py, pz, None), P(None, P(x, y), z),
                   P(P(), px, y, P(), pz)]
        ctx.step(len(results))
        for i, p in enumerate(results):
            self.check('construction %d' % i, expected, p)
        self.same('constructions', *results)
        for v, p in zip(case['values'], (px, py, pz)):
            self.check('operand after merging', spec.props(v), p)
        # a merged set is independent of its operands and of sets made from it
        results[2].clone(a.VALUE['CASE.DATIVE'], a.VALUE['WORD_TYPE.TEXT'])
        self.check('set after cloning', expected, results[2])

    def case_pair(self, case, ctx):
        P = a.words.Properties
        sx, sy = case['sets']
        mx, my = spec.props(*sx), spec.props(*sy)
        px, py = P(*[a.VALUE[v] for v in sx]), P(*[a.VALUE[v] for v in reversed(sy)])
        before = hash(px), hash(py)
        merged = px.clone(py)
        ctx.state((sx, sy))
        ctx.step(4)
        expected = spec.props(mx, my)
        self.check('merge', expected, merged)
        self.check('merge', expected, P(px, py))
        equal = mx == my
        if bool(px == py) is not equal or bool(px != py) is equal:
            raise core.Mismatch('equality', equal, [px == py, px != py])
        if equal and before[0] != before[1]:
            raise core.Mismatch('equal sets have different hashes', before[0], before[1])
        self.check('left operand', mx, px)
        self.check('right operand', my, py)
        self.same('merge twice', merged, merged.clone(py), merged.clone(merged), P(merged))
        if (hash(px), hash(py)) != before:
            raise core.Mismatch('hash changed by merging', before, (hash(px), hash(py)))

    def case_order(self, case, ctx):
        P = a.words.Properties
        expected = spec.props(*case['set'])
        ctx.state(case['set'])
        first = P(*[a.VALUE[v] for v in case['set']])
        for order in itertools.permutations(case['set']):
            ctx.step()
            p = P(*[a.VALUE[v] for v in order])
            self.check('order %s' % (order,), expected, p)
            self.same('order %s' % (order,), first, p)
        for v in case['set']:      # overriding twice gives the last one
            rel, name = spec.split(v)
            for other in spec.NAMES[rel]:
                p = P(a.VALUE['%s.%s' % (rel, other)], first)
                self.same('overridden', first, p)
                ctx.step()

    def case_single(self, case, ctx):
        p = a.properties(list(case['set']))
        model = spec.props(*case['set'])
        ctx.state(case['set'])
        for rel, record in a.REL_ITEMS:
            ctx.step()
            got = p.get(record)
            expected = model.get(rel, spec.DEFAULT[rel])
            a.equal('value of %s' % rel, expected, None if got is None else got.name)
            a.equal('%s specified' % rel, rel in model, p.is_specified(record))
        self.check('set after reading', model, p)
        if len({p, a.properties(list(reversed(case['set'])))}) != 1:
            raise core.Mismatch('the same set twice in a set', 1, 2)
        for other in FOREIGN + [object(), a.word(self.words[0]), a.TYPE['NOUN']] + [a.VALUE[v] for v in case['set']]:
            if (p == other) is not False or (p != other) is not True:
                raise core.Mismatch('comparison with a foreign object', [False, True], [repr(other), p == other, p != other])
        raw = p.get_raw_key([a.REL[rel] for rel in spec.CATEGORY])
        a.equal('raw key', [model.get(rel, spec.DEFAULT[rel]) for rel in spec.CATEGORY], [None if v is None else v.name for v in raw])

    # ------------------------------------------------------------------------------------- words and forms
    def case_word(self, case, ctx):
        model = self.words[case['word']]
        w = a.word(model)
        ctx.state(('word', case['word']))
        h = hash(w)
        for other in FOREIGN + [object(), w.properties, w.type, a.words.WordForm(w)]:
            ctx.step()
            # Word against WordForm is decided by the right operand only if the left one declines; only safety is required there
            if isinstance(other, a.words.WordForm):
                continue
            if (w == other) is not False or (w != other) is not True:
                raise core.Mismatch('comparison with a foreign object', [False, True], [repr(other), w == other, w != other])
        w.number_of_syllables, w.has_fluent_vowel, w.normal_form(), [f.form for f in w.all_forms()]
        w.serialize()
        if hash(w) != h:
            raise core.Mismatch('hash changed by reading', h, hash(w))
        if w not in {a.word(model): 1}:
            raise core.Mismatch('an equal word is not found in a dict', True, False)

    def case_words(self, case, ctx):
        i, j = case['pair']
        x, y = a.word(self.words[i]), a.word(self.words[j])
        ctx.state(('words', i, j))
        for state in range(3):
            ctx.step()
            if state == 1:
                x.number_of_syllables, x.has_fluent_vowel
            elif state == 2:
                y.number_of_syllables, y.has_fluent_vowel
            equal = i == j
            if bool(x == y) is not equal or bool(x != y) is equal or bool(y == x) is not equal or bool(y != x) is equal:
                raise core.Mismatch('equality of words %s and %s' % (self.words[i].key(), self.words[j].key()), equal, [x == y, x != y, y == x])
            if equal and hash(x) != hash(y):
                raise core.Mismatch('equal words have different hashes', hash(x), hash(y))
            if len({x, y}) != (1 if equal else 2):
                raise core.Mismatch('number of different words', 1 if equal else 2, len({x, y}))

    def case_forms(self, case, ctx):
        (i, j), (m, n) = case['pair'], case['props']
        wi, wj = self.words[i], self.words[j]
        pi, pj = (None if FORM_PROPS[k] is None else a.properties(FORM_PROPS[k]) for k in (m, n))
        fi, fj = (None if FORM_PROPS[k] is None else a.properties(FORM_PROPS[k]) for k in case.get('inserted', (0, 0)))
        x = a.words.WordForm(a.word(wi), properties=pi, form_properties=fi)
        y = a.words.WordForm(a.word(wj), properties=pj, form_properties=fj)
        mi, mj = spec.props(*(FORM_PROPS[m] or [])), spec.props(*(FORM_PROPS[n] or []))
        equal = i == j and spec.props(mi, wi.props) == spec.props(mj, wj.props)
        ctx.state(('forms', i, j, m, n, tuple(case.get('inserted', ()))))
        for state in range(3):
            ctx.step()
            if state == 1:
                x.form, x.starts_with_consonant_cluster
            elif state == 2:
                y.form, y.starts_with_consonant_cluster, y.word.number_of_syllables
            if bool(x == y) is not equal or bool(x != y) is equal:
                raise core.Mismatch('equality of forms', equal, [x == y, x != y])
            if equal and hash(x) != hash(y):
                raise core.Mismatch('equal forms have different hashes', hash(x), hash(y))
            if len({x, y}) != (1 if equal else 2):
                raise core.Mismatch('number of different forms', 1 if equal else 2, len({x, y}))
        if pi is not None:
            self.check('properties given to a form', mi, pi)

    def shrink(self, case):
        if case['kind'] == 'templates' and len(case['others']) > 1:
            for other in case['others']:
                yield dict(case, others=[other])
