"""C08: lexicon; all histories, all requests and every outcome of the random source."""
import contextlib
import fractions
import itertools
import random

from mc import adapter as a, core, spec

UNIVERSE = ('x', 'y', 'z')
SUBSETS = [tuple(c) for n in range(4) for c in itertools.combinations(UNIVERSE, n)]
KEYS = ('k', 'm')
TEMPLATES = ['t%d' % n for n in range(5000)]        # one object for each


class Choices(object):
    """replays a prefix of choices and records the arity of each"""

    def __init__(self, prefix):
        self.prefix, self.taken, self.arity = prefix, [], []

    def below(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c)
        self.arity.append(n)
        return c


@contextlib.contextmanager
def controlled(choices):
    def _randbelow(self, n):
        return choices.below(n)
    saved = random.Random.__dict__.get('_randbelow'), random.SystemRandom.__dict__.get('_randbelow')
    random.Random._randbelow = _randbelow
    random.SystemRandom._randbelow = _randbelow
    try:
        yield
    finally:
        random.Random._randbelow = saved[0]
        random.SystemRandom._randbelow = saved[1]


def all_outcomes(f):
    """every outcome of f over all results of the random source -> {outcome: probability}, controlled"""
    result, prefix, used = {}, [], 0
    for _ in range(5000):
        choices = Choices(prefix)
        with controlled(choices):
            value = f()
        used = max(used, len(choices.taken))
        p = fractions.Fraction(1)
        for n in choices.arity:
            p /= n
        result[value] = result.get(value, 0) + p
        taken, arity = choices.taken, choices.arity
        while taken and taken[-1] + 1 >= arity[len(taken) - 1]:
            taken.pop()
        if not taken:
            return result, used
        prefix = taken[:-1] + [taken[-1] + 1]
    return result, 0     # too many choice points to enumerate: treated as an uncontrolled source


class Check_(core.Check):
    id = 'C08'
    rule = ('case = sequence of additions (key, template, restrictions); state = (content, key, requested restrictions); for each '
            'of them both requests are run for every outcome of the random source')
    assumptions = ('library randomness is drawn through random.Random._randbelow; where it is not, outcomes are sampled with a '
                   'missing probability below 1e-12 per candidate',)

    CROWDS = {'quick': (100, 129, 200, 257, 300, 520, 1030), 'thorough': (100, 101, 129, 200, 256, 257, 300, 400, 513, 520, 700, 1000, 1030, 2050)}

    def options(self):
        return [(k, s) for k in KEYS for s in SUBSETS]

    def shards(self, tier):
        options = self.options()
        n = 3 if tier == 'quick' else 4
        yield {'prefix': None}
        for x in range(len(options)):
            yield {'prefix': [x], 'length': n}
        # deeper histories over a smaller universe with one key and repeated templates
        for x in range(8):
            yield {'prefix': [x], 'length': n + 1, 'only': 8}
        yield {'kind': 'many'}
        for i in range(16):
            yield {'kind': 'wide', 'part': i, 'size': 5 if tier == 'quick' else 6}
        for i in range(8):
            yield {'kind': 'chains', 'part': i}
        yield {'kind': 'objects'}
        for n in self.CROWDS[tier]:
            yield {'kind': 'crowd', 'size': n}

    def explore(self, shard, ctx):
        options = self.options()
        if shard.get('kind') == 'many':
            for n in range(1, 12):
                for s in range(len(SUBSETS)):
                    ctx.run({'adds': [s] * n})
                    ctx.run({'adds': [s] * n, 'same': True})
            # some templates several times among many others
            for n in list(range(2, 20)) + [33, 65]:
                for s in range(len(SUBSETS)):
                    for step in (1, 2, 3):
                        ctx.run({'adds': [s] * n + [SUBSETS.index(())] * (n % 3), 'repeats': max(1, n - step)})
                        ctx.run({'adds': [s] * n + [SUBSETS.index(('x', 'y', 'z'))] * (n % 3), 'repeats': max(1, n // (step + 1))})
            return
        if shard.get('kind') == 'wide':
            # pairs and triples of subsets of a larger universe, all requests
            full = (1 << shard['size']) - 1
            for x in range(full + 1):
                for y in range(full + 1):
                    if (x + y) % 16 == shard['part']:
                        ctx.run({'masks': [x, y], 'size': shard['size']})
            for x in range(shard['part'], full + 1, 16):
                for y in range(0, full + 1, 3):
                    for z in range(0, full + 1, 5):
                        ctx.run({'masks': [x, y, z], 'size': shard['size'], 'requests': [full, x | y, x | z, y | z, x, z]})
            return
        if shard.get('kind') == 'crowd':
            # a great many templates under one key
            n = shard['size']
            everything, none = SUBSETS.index(('x', 'y', 'z')), SUBSETS.index(())
            ctx.run({'adds': [none] * n})
            ctx.run({'adds': [SUBSETS.index(('y',))] * n + [none] * 3})
            ctx.run({'adds': [everything] * 2 + [none] * n})
            return
        if shard.get('kind') == 'chains':
            for n in range(2, 24):
                for variant in range(shard['part'], 48, 8):
                    # growing sets in a rotated order, some repeated, some with one element exchanged
                    masks = [(1 << (i * (1 + variant % 3) % (n + 1))) - 1 for i in range(n)]
                    masks = masks[variant % n:] + masks[:variant % n]
                    if variant % 2:
                        masks = masks[::-1]
                    if variant % 5 == 4:
                        masks[variant % n] ^= 1 << n
                    requests = {(1 << k) - 1 for k in range(n + 2)} | {((1 << n) - 1) ^ (1 << k) for k in range(n)} | {(1 << (n + 1)) - 1}
                    ctx.run({'masks': masks, 'size': n + 1, 'requests': sorted(requests)})
            return
        if shard.get('kind') == 'objects':
            for kind in range(6):
                for x in range(16):
                    for y in range(16):
                        ctx.run({'masks': [x, y], 'size': 4, 'objects': kind})
            return
        if shard['prefix'] is None:
            ctx.run({'adds': []})
            return
        if 'only' in shard:
            for rest in itertools.product(range(shard['only']), repeat=shard['length'] - 1):
                ctx.run({'adds': shard['prefix'] + list(rest)})
            return
        for length in range(shard['length']):
            for rest in itertools.product(range(len(options)), repeat=length):
                ctx.run({'adds': shard['prefix'] + list(rest)})
                if length <= 2:
                    ctx.run({'adds': shard['prefix'] + list(rest), 'asked': True})

    def masks(self, case, ctx):
        """restrictions are subsets of a universe of case['size'] objects"""
        n = case['size']
        kind = case.get('objects', 0)
        universe = {0: ['r%d' % i for i in range(n)], 1: list(range(n)), 2: [('цвет', i) for i in range(n)],
                    3: [a.VALUE[v] for v in spec.VALUES[:n]], 4: ['ХАРАКТЕР.%d' % (i * i) for i in range(n)],
                    5: [frozenset([i]) for i in range(n)]}[kind]
        key = {0: 'k', 1: 7, 2: ('k', 1), 3: a.VALUE['CASE.DATIVE'], 4: frozenset('k'), 5: 'К л ю ч'}[kind]

        def subset(mask):
            return frozenset(universe[i] for i in range(n) if mask >> i & 1)
        model, real = spec.L(), a.lexicon.Lexicon()
        for number, mask in enumerate(case['masks']):
            template = 't%d' % number
            model.add(key, template, subset(mask))
            real.add_template(key, template, restrictions=subset(mask))
        a.equal('key %r known' % (key,), True, real.has_key(key))
        for mask in case.get('requests', range(1 << n)):
            ctx.state((tuple(case['masks']), n, kind, mask))
            self.query(model, real, key, subset(mask), ctx)
        if kind:
            self.query(model, real, 'other', subset(1), ctx)
            self.query(model, real, key, subset(case['masks'][0]) | {'чужое'}, ctx)

    def run_case(self, case, ctx):
        if 'masks' in case:
            return self.masks(case, ctx)
        options = self.options()
        model, real = spec.L(), a.lexicon.Lexicon()
        for n, i in enumerate(case['adds']):
            key, restrictions = options[i]
            template = TEMPLATES[0] if case.get('same') else TEMPLATES[n % case.get('repeats', 5000)]
            if case.get('asked'):
                # what was asked of an earlier state must not be remembered
                for k in KEYS + ('absent',):
                    real.has_key(k)
                    for requested in SUBSETS:
                        a.spoil(real.get_templates(k, frozenset(requested)))
                        a.outcome(real.get_random_template, k, frozenset(requested))
                        a.outcome(real.get_random_nearest_template, k, frozenset(requested))
            model.add(key, template, restrictions)
            if restrictions == () and n % 2:
                real.add_template(key, template)
            else:
                real.add_template(key, template, frozenset(restrictions))
        content = tuple(sorted((k, tuple(v)) for k, v in model.data.items()))
        for key in KEYS + ('absent',):
            if real.has_key(key) != (key in model.data):
                raise core.Mismatch('is key %r known' % key, key in model.data, real.has_key(key))
            for requested in SUBSETS + [('q',), ('x', 'q')]:
                ctx.state((content, key, requested))
                self.query(model, real, key, frozenset(requested), ctx)
            self.query(model, real, key, None, ctx)

    def query(self, model, real, key, requested, ctx):
        args = (key,) if requested is None else (key, requested)
        wanted = frozenset() if requested is None else requested
        eligible = real.get_templates(key, wanted)
        a.equal('eligible templates for %r' % (args,), sorted(t for t, _ in model.eligible(key, wanted)), sorted(eligible))
        a.spoil(eligible)
        ctx.step()
        for nearest in (False, True):
            ctx.step()
            name = 'get_random_nearest_template' if nearest else 'get_random_template'
            f = getattr(real, name)
            what = '%s%r' % (name, args)
            expected = a.model_outcome(model.choices, key, wanted, nearest)

            def one():
                got = a.outcome(f, *args)
                return got if got[0] == 'ok' else got[:2]
            got, used = all_outcomes(one)
            if expected[0] == 'err':
                ctx.outcome(expected[1])
                if set(got) != {('err', expected[1])}:
                    raise core.Mismatch(what, list(expected), sorted(map(str, got)))
                continue
            expected = expected[1]
            ctx.outcome('%d candidates' % len(expected))
            allowed = {('ok', t) for t in expected}
            if used == 0 and len(expected) > 1:
                # the random source is not the one we control: sample
                got = {one(): None for _ in range(32 * len(expected))}
                if set(got) != allowed:
                    raise core.Mismatch(what, sorted(expected), sorted(map(str, got)))
                continue
            if set(got) != allowed:
                raise core.Mismatch(what, sorted(expected), sorted(map(str, got)))
            for t in set(expected):
                fair = fractions.Fraction(expected.count(t), len(expected))
                if got[('ok', t)] != fair:
                    raise core.Mismatch(what + ': chance of %s' % t, str(fair), str(got[('ok', t)]))

    def shrink(self, case):
        if 'masks' in case:
            for i in range(len(case['masks'])):
                yield dict(case, masks=case['masks'][:i] + case['masks'][i + 1:])
            for i in range(len(case.get('requests', ()))):
                yield dict(case, requests=case['requests'][:i] + case['requests'][i + 1:])
            return
        for i in range(len(case['adds'])):
            yield dict(case, adds=case['adds'][:i] + case['adds'][i + 1:])
