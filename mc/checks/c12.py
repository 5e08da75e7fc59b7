"""C12: autofill for all sets of given forms."""
import itertools

from mc import adapter as a, core, spec
from mc.checks.c04 import labels

_NEAREST = {}
ODD = [' ', '  ', '\t', '\n', '\u00a0', '\u200b', '\ufeff', '\x00', '-', '\u2014', '0', '.', '?', '%', '%s', '[x]', "''", 'None', 'null', 'False', ' x', 'x ', 'x' * 1000]


def nearest_order(type, index):
    """slots ordered from nearest to farthest for a missing slot"""
    key = (type, index)
    if key not in _NEAREST:
        target = spec.SLOTS[type][index]
        _NEAREST[key] = sorted(range(len(spec.SLOTS[type])),
                               key=lambda k: (-spec.similarity(target, spec.SLOTS[type][k]), k))
    return _NEAREST[key]


class Check_(core.Check):
    id = 'C12'
    rule = ('state = (part of speech, set of given forms, pattern of texts); every subset within the bounds')

    def shards(self, tier):
        for type in spec.TYPES:
            n = spec.FORMS_NUMBER[type]
            yield {'kind': 'all', 'type': type}
            if n > 3:
                yield {'kind': 'strides', 'type': type, 'of': 1 if tier == 'thorough' else 3}
            if n <= 20:
                bits = n if (tier == 'thorough' or n < 10) else 0
                if bits:
                    for lo, hi in core.chunks(64 if n > 10 else 1, 1 << n):
                        yield {'kind': 'masks', 'type': type, 'range': [lo, hi]}
                else:
                    for i in range(n):
                        yield {'kind': 'sets', 'type': type, 'first': i, 'sizes': [1, 2, 3, 4]}
            else:
                for i in range(n):
                    yield {'kind': 'sets', 'type': type, 'first': i, 'sizes': [1, 2] if tier == 'quick' or n > 60 else [1, 2, 3]}

    def explore(self, shard, ctx):
        type = shard['type']
        n = spec.FORMS_NUMBER[type]
        if shard['kind'] == 'all':
            ctx.run({'type': type, 'given': []})
            ctx.run({'type': type, 'given': list(range(n))})
            # texts that are odd but given
            for text in ODD:
                for given in [[0], [n - 1], [0, n - 1], [n // 2], list(range(0, n, 2)), list(range(n))]:
                    for at in sorted({given[0], given[-1], given[len(given) // 2]}):
                        ctx.run({'type': type, 'given': given, 'odd': {str(at): text}})
                    ctx.run({'type': type, 'given': given, 'odd': {str(i): text for i in given}})
            for rel in spec.SCHEMA[type]:
                for name in spec.NAMES[rel] + [None]:
                    i = spec.SCHEMA[type].index(rel)
                    given = [k for k, slot in enumerate(spec.SLOTS[type]) if slot[i] == name]
                    ctx.run({'type': type, 'given': given})
                    ctx.run({'type': type, 'given': given, 'repeat': True})
                    ctx.run({'type': type, 'given': [k for k in range(n) if k not in given]})
            for fixed in [[v] for v in spec.VALUES]:
                ctx.run({'type': type, 'given': [0], 'fixed': fixed})
                ctx.run({'type': type, 'given': [n - 1, n // 2], 'fixed': fixed})
            for k in range(n + 1):
                ctx.run({'type': type, 'given': list(range(k))})
                ctx.run({'type': type, 'given': list(range(k, n))})
        elif shard['kind'] == 'strides':
            for step in range(2, n, shard['of']):
                for start in range(0, step, shard['of']):
                    ctx.run({'type': type, 'given': list(range(start, n, step))})
                    ctx.run({'type': type, 'given': list(range(start, min(n, start + step)))})
        elif shard['kind'] == 'masks':
            for mask in range(*shard['range']):
                ctx.run({'type': type, 'given': [i for i in range(n) if mask >> i & 1]})
        else:
            first = shard['first']
            for size in shard['sizes']:
                for rest in itertools.combinations(range(first + 1, n), size - 1):
                    given = [first] + list(rest)
                    ctx.run({'type': type, 'given': given})
                    if size <= 2:
                        ctx.run({'type': type, 'given': [k for k in range(n) if k not in given]})
                    if size == 2:
                        ctx.run({'type': type, 'given': given, 'repeat': True})

    def run_case(self, case, ctx):
        type, given = case['type'], set(case['given'])
        ctx.state((type, tuple(case['given']), bool(case.get('repeat')), tuple(case.get('fixed', ())), str(case.get('odd'))))
        texts = labels(type)
        if case.get('repeat'):
            texts = ['t%d' % (i % 2) for i in range(len(texts))]
        forms = [case.get('odd', {}).get(str(i), f) if i in given else '' for i, f in enumerate(texts)]
        word = a.word(spec.W(type, forms, spec.props(*case.get('fixed', ()))))
        expected = list(forms)
        if given:
            for i in range(len(forms)):
                if i not in given:
                    expected[i] = forms[next(k for k in nearest_order(type, i) if k in given)]
        asked = len(given) <= 2
        if asked:
            # questions asked before the forms are filled in must not influence the answers given afterwards
            model = spec.W(type, forms, spec.props(*case.get('fixed', ())))
            self.questions('before', model, word)
        word.autofill_missed_forms()
        ctx.step(len(forms))
        got = list(word.forms)
        if got != expected:
            bad = [i for i in range(max(len(got), len(expected))) if got[i:i + 1] != expected[i:i + 1]]
            raise core.Mismatch('forms of %s filled in from %s, slots %s' % (type, sorted(given), bad[:5]),
                                [expected[i] for i in bad[:5]], [got[i:i + 1] for i in bad[:5]])
        word.autofill_missed_forms()
        a.equal('filled in twice', expected, list(word.forms))
        if asked:
            self.questions('after', spec.W(type, expected, spec.props(*case.get('fixed', ()))), word)

    def questions(self, when, model, word):
        a.equal('normal form %s' % when, model.normal(), word.normal_form())
        last = spec.slot_props(model.type, len(model.forms) - 1)
        a.equal('last form %s' % when, model.text(last), word.form(a.properties(last)))
        a.equal('inserted form %s' % when, spec.F(model, last).text, a.words.WordForm(word, properties=a.properties(last)).form)
        a.equal('properties %s' % when, model.props, a.observe(word.properties))

    def shrink(self, case):
        for i in range(len(case['given'])):
            yield dict(case, given=case['given'][:i] + case['given'][i + 1:])
