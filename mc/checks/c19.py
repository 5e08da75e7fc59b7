"""C19: property sets as text and back."""
import itertools

from mc import adapter as a, core, spec
from mc.checks.c15 import REDUCED, full_sets, sets


def letter_cases(text):
    yield text
    yield text.upper()
    yield text[:1].upper() + text[1:]
    yield ''.join(c.upper() if i % 2 else c for i, c in enumerate(text))


class Check_(core.Check):
    id = 'C19'
    rule = ('state = property set; it is built in every order, rendered, compared with the model rendering, and the rendered list is parsed '
            'back through a template in several letter cases and spacings')

    def shards(self, tier):
        yield {'size': 1, 'range': [0, 0], 'reduced': False}
        for lo, hi in core.chunks(40, len(spec.VALUES)):
            yield {'size': 3 if tier == 'quick' else 4, 'range': [lo, hi], 'reduced': False}
        for i in range(8):
            yield {'size': 20, 'part': i, 'reduced': False}
        if tier == 'thorough':
            for lo, hi in core.chunks(len(REDUCED), len(REDUCED)):
                yield {'size': 5, 'range': [lo, hi], 'reduced': True}

    def explore(self, shard, ctx):
        values = REDUCED if shard['reduced'] else spec.VALUES
        if shard['size'] == 1:
            ctx.run([])
            for v in spec.VALUES:
                ctx.run([v])
            for v in spec.VALUES:                       # several values of one category: last wins
                for w in spec.NAMES[spec.split(v)[0]]:
                    ctx.run([v, 'CASE.DATIVE', '%s.%s' % (spec.split(v)[0], w)])
            ctx.run(['%s.%s' % (rel, names[-1]) for rel, names in spec.NAMES.items()])
            ctx.run(['%s.%s' % (rel, names[0]) for rel, names in reversed(list(spec.NAMES.items()))])
            return
        if shard['size'] == 20:
            for n, s in enumerate(full_sets()):
                if n % 8 == shard['part']:
                    ctx.run(list(s))
                    ctx.run(list(s)[::2] + list(s)[1::2])
            return
        first = values[slice(*shard['range'])]
        for i in range(*shard['range']):
            for tail in sets(values[i + 1:], shard['size'] - 1):
                if all(spec.split(v)[0] != spec.split(values[i])[0] for v in tail) and (tail or not first):
                    ctx.run([values[i]] + list(tail))

    def run_case(self, case, ctx):
        model = spec.props(*case)
        expected = spec.render(model)
        ctx.state(tuple(sorted(model.items())))
        distinct = len({spec.split(v)[0] for v in case}) == len(case)
        orders = itertools.permutations(case) if distinct and len(case) <= 4 else [tuple(case)]
        for order in orders:
            ctx.step()
            p = a.properties(list(order))
            text = str(p)
            if not isinstance(text, str):
                raise core.Mismatch('rendering is not text', 'str', type(text).__name__)
            a.equal('rendering of %s' % (order,), expected, text)
            a.equal('formatted', expected, '%s' % p)
        inner = expected[1:-1]
        stored = {str(k): v for k, v in spec.serialize_props(model).items()}
        spellings = itertools.chain(letter_cases(inner), [inner.replace(',', ' , '), ' %s ' % inner, ',' + inner + ',,'])
        for n, written in enumerate(spellings):
            if n and len(case) > 2 and n % 3:
                continue
            ctx.step()
            t = a.template('[x|%s]' % written, ())
            got = t.serialize()['substitutions'][0]['dependencies']
            a.equal('values read from %r' % written, [stored], [{str(k): v for k, v in d.items()} for d in got])
        back = a.templates.Substitution.parse_properties(inner)
        if back != a.properties(case) or hash(back) != hash(a.properties(case)):
            raise core.Mismatch('set read back from %r' % inner, expected, str(back))

    def shrink(self, case):
        for i in range(len(case)):
            yield case[:i] + case[i + 1:]
