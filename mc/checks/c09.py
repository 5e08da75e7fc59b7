"""C09: integers."""
import itertools
import os

from mc import adapter as a, core, isolate, spec


def shapes(tier):
    window = 130 if tier == 'quick' else 1100
    top = 20 if tier == 'quick' else 40
    seen = set()
    for k in range(2, top + 1):
        for m in range(1, 10 if tier == 'quick' else 100):
            for d in range(-window, window + 1):
                n = m * 10 ** k + d
                if n not in seen:
                    seen.add(n)
    return sorted(seen)


ORDERS = [0, 1, 2, 21, 11, 9999, 10000, 10001, -1, -2, -10000, 10 ** 6, 10 ** 9, -10 ** 6, 101, 5]


class Check_(core.Check):
    id = 'C09'
    rule = ('state = integer; contiguous range and all integers of the enumerated decimal shapes with both signs; plus all request '
            'sequences over boundary numbers, each in a process that has not constructed any number yet')
    RANGE = {'quick': 120000, 'thorough': 3000000}

    def shards(self, tier):
        n = self.RANGE[tier]
        for lo, hi in core.chunks(16 if tier == 'quick' else 64, 2 * n + 1):
            yield {'kind': 'range', 'range': [lo - n, hi - n]}
        for i in range(16):
            yield {'kind': 'shapes', 'part': i, 'of': 16}
        for i in range(8):
            yield {'kind': 'huge', 'part': i}
        length = 2 if tier == 'quick' else 3
        for x in ORDERS:
            yield {'kind': 'orders', 'first': x, 'length': length}

    def explore(self, shard, ctx):
        if shard['kind'] == 'range':
            for n in range(*shard['range']):
                ctx.run({'n': n})
        elif shard['kind'] == 'shapes':
            for n in shapes(ctx.tier)[shard['part']::shard['of']]:
                ctx.run({'n': n})
                ctx.run({'n': -n})
        elif shard['kind'] == 'huge':
            for k in list(range(19, 330)) + [500, 999, 1000, 2048, 4000, 4290]:
                if k % 8 == shard['part']:
                    for base in (10 ** k, 2 ** k, 3 ** k, 10 ** k - 10 ** (k // 2), 10 ** (k // 2) * (10 ** (k - k // 2) - 1)):
                        for d in range(-25, 26) if k < 100 or ctx.tier == 'thorough' else (-19, -12, -6, -4, -1, 0, 1, 2, 3, 5, 11, 14, 20, 21, 22):
                            ctx.run({'n': base + d})
                            ctx.run({'n': -base - d})
        else:
            for rest in itertools.product(ORDERS, repeat=shard['length'] - 1):
                ctx.run({'order': [shard['first']] + list(rest)})

    def run_case(self, case, ctx):
        if 'n' in case:
            ctx.state()
            self.number(case['n'], ctx)
            return
        ctx.state(tuple(case['order']))
        result = isolate.run(self.sequence, case['order'])
        ctx.step(len(case['order']))
        if result is not None:
            raise core.Mismatch('order of requests %s: %s' % (case['order'], result[0]), result[1], result[2])

    def sequence(self, numbers):
        """runs in a forked child whose integer cache is cold"""
        try:
            for n in numbers:
                self.number(n, None)
            for n in range(-30, 130):
                self.number(n, None)
        except core.Mismatch as m:
            return [m.what, repr(m.expected), repr(m.got)]

    def number(self, n, ctx):
        model = spec.integer(n)
        got = a.constructors.construct_integer(n)
        if ctx is not None:
            ctx.step()
            if n % 64 == 0:
                ctx.outcome(model.props['INTEGER_FORM'])
        word = got.word
        if word.type is not a.TYPE['INTEGER'] or list(word.forms) != model.word.forms or got.form != str(n):
            raise core.Mismatch('text of %d' % n, model.word.forms, [word.forms, got.form])
        p = got.properties
        if p.get(a.r.INTEGER_FORM).name != model.props['INTEGER_FORM'] or p.get(a.r.NUMBER).name != model.props['NUMBER']:
            raise core.Mismatch('class of %d' % n, model.props, a.observe(p))
        if a.observe(p) != model.props or a.observe(word.properties) != model.props:
            raise core.Mismatch('properties of %d' % n, model.props, [a.observe(p), a.observe(word.properties)])
        if n % 7 == 0 or abs(n) < 200:
            again = a.constructors.construct_integer(n)
            if not (again == got) or again.form != got.form:
                raise core.Mismatch('second request for %d' % n, got.form, again.form)
