"""C14: all schedules of concurrent generations, with bounded preemptions, each from a cold process."""
import gc
import itertools
import json

from mc import threads

threads.watch_locks()

from mc import adapter as a, core, isolate, spec
from mc.checks import c13

NAMES = c13.EXTERNAL_NAMES


SMALL = [spec.W('NOUN', ['рог%d' % i for i in range(18)], {'ANIMALITY': 'INANIMATE', 'GENDER': 'MASCULINE'}),
         spec.W('PREPOSITION', ['в', 'во', 'во!'])]
NUMBERS = (0, 3, 5, 20001)
TEXTS = ['adjective0', 'adjective10', 'verb1', 'noun0', 'noun3', 'во', 'о']


class World(c13.World):
    def __init__(self):
        c13.World.__init__(self)
        self.lexicon = a.lexicon.Lexicon()
        self.lexicon.add_template('k', self.templates[1])
        self.lexicon.add_template('k', self.templates[0], restrictions=frozenset((1,)))


def op_integer(world, n):
    f = a.constructors.construct_integer(n)
    return ('ok', [f.form, a.observe(f.properties), f.word.number_of_syllables])


def op_parse_own(world, i):
    t = a.template(c13.TEMPLATES[i], NAMES)
    return a.outcome(lambda: t.substitute(world.externals(5), world.dictionary))[:2]


def op_lexicon(world, n):
    t = world.lexicon.get_random_nearest_template('k')
    return a.outcome(lambda: t.substitute(world.externals(n), world.dictionary))[:2]


def op_features(world, name):
    f = world.forms[name]
    return ('ok', [f.starts_with_consonant_cluster, f.form, f.word.number_of_syllables, f.word.has_fluent_vowel])


def op_own_word(world, i):
    """every thread fills in its own copy and looks it up in its own dictionary"""
    w = a.words.Word.deserialize(json.loads(json.dumps(world.words[i].serialize())))
    w.forms[1] = ''
    w.autofill_missed_forms()
    d = a.dictionary.Dictionary(words=[w])
    return ('ok', [w.forms[1], d.get_word(w.forms[0]).form])


def op_build(world):
    """every thread builds everything it uses, nothing is shared but the library itself"""
    words = [a.word(w) for w in SMALL]
    d = a.dictionary.Dictionary(words=words)
    t = a.template('[рог0|число] %[во|рог0]', ('число', 'рог0'))
    e = {'число': a.constructors.construct_integer(5), 'рог0': words[0].form and a.words.WordForm(words[0])}
    return ('ok', [t.substitute(e, d), d.get_word('рог3').form, t.get_undictionaried_words({}, d)])


def op_word(world, i):
    p = a.words.Properties(a.VALUE['NUMBER.PLURAL'], a.VALUE['CASE.DATIVE'])
    return ('ok', [world.words[i].form(p), [f.form for f in itertools.islice(world.words[i].all_forms(), 3)]])


def op_find(world):
    return ('ok', [world.dictionary.get_word('noun3').form, world.dictionary.has_word('нет'),
                   world.templates[1].get_undictionaried_words(NAMES, world.dictionary)])


# many different things of every kind, so that whatever is remembered for speed has to be given up at some point
MANY = 280       # quick: half of it
MANY_SETS = [dict(zip(('NUMBER', 'CASE', 'GENDER', 'PERSON', 'TIME'), s))
             for s in itertools.product(('SINGULAR', 'PLURAL'), spec.NAMES['CASE'], spec.NAMES['GENDER'], spec.NAMES['PERSON'], spec.NAMES['TIME'])][:MANY]


def many_text(k):
    return '%d [число] [adjective%d|герой|%s] [noun%d|число]' % (k, k % 100, ','.join(spec.VERBOSE['%s.%s' % x] for x in MANY_SETS[k].items()), k % 12)


def op_many(world):
    result = []
    for k in range(MANY):
        f = a.constructors.construct_integer(30000 + k)
        externals = dict(world.forms, число=f)
        t = a.template(many_text(k), NAMES)
        w = a.words.Word(a.TYPE['TEXT'], ['о' * (k % 7) + 'с%d' % k])
        result.append([f.form, t.substitute(externals, world.dictionary), world.templates[1].substitute(externals, world.dictionary),
                       world.words[k % 3].form(a.properties(MANY_SETS[k])), w.number_of_syllables, a.words.WordForm(w).starts_with_consonant_cluster])
    return ('ok', result)


def expected_many():
    result, d = [], spec.D(c13.WORDS)
    for k in range(MANY):
        f = spec.integer(30000 + k)
        externals = dict(c13.EXTERNALS, число=f)
        w = spec.text_form('о' * (k % 7) + 'с%d' % k)
        result.append([f.text, spec.T(many_text(k), NAMES).substitute(externals, d), spec.T(c13.TEMPLATES[1], NAMES).substitute(externals, d),
                       c13.WORDS[k % 3].text(MANY_SETS[k]), w.word.syllables(), w.cluster()])
    return ('ok', result)


def op_twice(world, *op):
    return ('ok', [FUNCTIONS[op[0]](world, *op[1:]), FUNCTIONS[op[0]](world, *op[1:])])


FUNCTIONS = dict(c13.FUNCTIONS)
FUNCTIONS.update({name[3:]: f for name, f in list(globals().items()) if name.startswith('op_')})


def expected_of(op):
    if op[0] == 'integer':
        f = spec.integer(op[1])
        return ('ok', [f.text, f.props, 1])
    if op[0] == 'parse_own':
        return c13.expected_of(('substitute', op[1], 5))
    if op[0] == 'lexicon':
        return c13.expected_of(('substitute', 1, op[1]))
    if op[0] == 'features':
        f = c13.EXTERNALS[op[1]]
        return ('ok', [f.cluster(), f.text, f.word.syllables(), f.word.fluent()])
    if op[0] == 'own_word':
        w = c13.WORDS[op[1]].copy()
        w.forms[1] = ''
        w.autofill()
        return ('ok', [w.forms[1], w.forms[0]])
    if op[0] == 'build':
        d = spec.D(SMALL)
        e = {'число': spec.integer(5), 'рог0': spec.F(SMALL[0])}
        t = spec.T('[рог0|число] %[во|рог0]', ('число', 'рог0'))
        return ('ok', [t.substitute(e, d), 'рог3', t.missing({}, d)])
    if op[0] == 'word':
        w = c13.WORDS[op[1]]
        return ('ok', [w.text({'NUMBER': 'PLURAL', 'CASE': 'DATIVE'}), [f.text for f in w.all_forms()[:3]]])
    if op[0] == 'find':
        return ('ok', ['noun3', False, []])
    if op[0] == 'many':
        return expected_many()
    if op[0] == 'twice':
        return ('ok', [expected_of(op[1:])] * 2)
    return c13.expected_of(op)


OPS = [('integer', 3), ('integer', 25), ('integer', 20001), ('substitute', 0, 3), ('substitute', 1, 1), ('substitute', 1, 5),
       ('substitute', 2, 5), ('substitute', 3, 22), ('partial', 3, 'герой'), ('parse_own', 1), ('lexicon', 1), ('features', 'сон'),
       ('own_word', 3), ('word', 2), ('find',), ('merge',), ('substitute', 4, 1),
       ('build',)]
SINGLE = len(OPS)
# one thread does the same thing twice, another one many different things in between
CROWDED = [('twice',) + op for op in (('substitute', 1, 1), ('integer', 20001), ('parse_own', 1), ('features', 'сон'), ('find',), ('word', 2),
                                      ('build',), ('substitute', 3, 22), ('substitute', 2, 5))]
OPS += CROWDED + [('many',)]
INDEX = {op: i for i, op in enumerate(OPS)}
# pairs of short operations on the same cold objects, explored with more preemptions
DEEP = [(('integer', 3), ('integer', 25)), (('integer', 3), ('integer', 3)), (('integer', 3), ('integer', 20001)),
        (('features', 'сон'), ('features', 'сон')), (('find',), ('find',)), (('substitute', 2, 5), ('features', 'сон')),
        (('build',), ('build',)), (('substitute', 0, 3), ('substitute', 0, 3)), (('own_word', 3), ('own_word', 3)),
        (('word', 2), ('word', 2))]
# generations that may be in the middle of a call at the same time
NESTED = [(op, op) for op in (('substitute', 1, 1), ('substitute', 3, 22), ('partial', 3, 'герой'), ('parse_own', 1), ('lexicon', 1),
                              ('own_word', 3), ('word', 2))] + [(('substitute', 1, 1), ('substitute', 1, 5)), (('substitute', 0, 3), ('substitute', 2, 5))]
TRIPLES = [(('integer', 3), ('integer', 25), ('integer', 20001)), (('features', 'сон'),) * 3,
           (('integer', 3), ('integer', 3), ('substitute', 1, 1))]


def snapshot(world):
    return [[a.observe_word(w) for w in world.words],
            sorted([name, a.observe_form(f), a.observe(f.form_properties), f.form] for name, f in world.forms.items()),
            [t.serialize() for t in world.templates],
            [[n, a.observe_form(a.constructors.construct_integer(n)), a.constructors.construct_integer(n).form] for n in NUMBERS],
            sorted((text, a.observe_form(world.dictionary.get_word(text))) for text in TEXTS)]


def model_snapshot():
    d = spec.D(c13.WORDS)
    return [[w.key() for w in c13.WORDS],
            sorted([name, f.key(), f.form_props, f.text] for name, f in c13.EXTERNALS.items() if f is not None),
            None,
            [[n, spec.integer(n).key(), spec.integer(n).text] for n in NUMBERS],
            sorted((text, d.data[text].key()) for text in TEXTS)]


def isolate_world():
    world = World()
    gc.collect()
    threads.find_codes()
    gc.freeze()     # children copy fewer pages
    return world


def plain(x):
    return json.loads(json.dumps(x))


class Check_(core.Check):
    id = 'C14'
    rule = ('trace = one complete schedule of real threads over real shared objects in a fresh process; states = yield points first '
            'reached by that schedule (nodes of the schedule tree); transitions = all yield points executed; a plan is the starting thread and up to P preemptions, at most '
            '%d yield points per thread and source position' % threads.VISITS)
    assumptions = ('switches happen between source lines (for some pairs also between byte-codes that touch shared objects, for others at calls and returns) of the library; '
                   'single operations of built-in containers are atomic, as in CPython with the GIL', )

    def prepare(self, tier):
        global MANY
        MANY = 140 if tier == 'quick' else 280
        self.expected = [plain(expected_of(op)) for op in OPS]
        self.snapshot = plain(model_snapshot())
        # execution happens in children of this process, which must not have used the library except for building one world;
        # the deep plans build the world in the child too
        if hasattr(a.constructors, '_INTEGER_CACHE_RIGHT'):
            a.constructors._INTEGER_CACHE_RIGHT = 30     # only makes building the table cheaper
        self.zygote = isolate_world()
        plans = []      # (ops, preemptions, byte-codes, own world)
        pairs = [list(p) for p in itertools.combinations_with_replacement(range(SINGLE), 2)]
        deep = [[INDEX[op] for op in p] for p in DEEP]
        triples = [[INDEX[op] for op in t] for t in TRIPLES]
        rest = [p for p in pairs if p not in deep]
        # a thread left in the middle of a call while another one is in the middle of its own: two preemptions at calls and returns
        if tier == 'quick':
            nested = [[INDEX[op] for op in p] for p in NESTED]
        else:
            nested = rest + deep[5:]
        if tier == 'quick':
            plans += [(p, 1, False, False) for p in rest]
            plans += [(p, 1, False, True) for p in deep[5:] + triples]
            plans += [(p, 1, True, True) for p in deep[:5]]
            plans += [(p, 2, False, True) for p in deep[:5]]
            plans += [(p, 2, 'calls', False) for p in nested]
        else:
            plans += [(p, 3, False, True) for p in deep[3:5]] + [(p, 2, True, True) for p in deep[:5]]
            plans += [(p, 2, False, True) for p in deep[:3] + deep[5:] + triples]
            plans += [(p, 1, True, False) for p in rest]
            plans += [(p, 2, 'calls', False) for p in nested]
            plans += [(p, 2, False, False) for p in rest]
        plans += [([INDEX[op], INDEX['many',]], 1, False, False) for op in CROWDED]
        self.plans = plans

    def shards(self, tier):
        for number, (ops, bound, opcodes, own) in enumerate(self.plans):
            crowded = OPS[ops[-1]] == ('many',)
            for first in range(1 if len(set(ops)) == 1 or crowded and tier == 'quick' else len(ops)):     # same operations: symmetric
                parts = 8 if crowded else 1 if bound == 1 else 4 if tier == 'quick' else 16
                for part in range(parts):
                    yield {'plan': number, 'first': first, 'part': part, 'parts': parts}

    def explore(self, shard, ctx):
        ops, bound, opcodes, own = self.plans[shard['plan']]
        threads.instrument(opcodes)     # here, so that the children need not do it again and again
        case = {'ops': ops, 'first': shard['first'], 'preemptions': [], 'opcodes': opcodes, 'own': own}
        self.branch(case, bound, ctx, shard)

    def branch(self, case, bound, ctx, shard=None):
        self.steps = None
        ctx.run(case)
        n = self.steps
        if n is None or not bound:
            return
        last = case['preemptions'][-1][0] if case['preemptions'] else -1
        who, finish = [int(x) for x in self.who], self.finish
        for step in range(last + 1, n):
            if shard is not None and step % shard['parts'] != shard['part']:
                continue
            for target in range(len(case['ops'])):
                if target != who[step] and finish[target] > step:
                    self.branch(dict(case, preemptions=case['preemptions'] + [[step, target]]), bound - 1, ctx)

    def run_case(self, case, ctx):
        result = isolate.run(self.execute, case)
        last = case['preemptions'][-1][0] if case['preemptions'] else -1
        n = result['steps'] - last - 1
        ctx.plain_states += n
        ctx.step(result['steps'])
        ctx.outcome('%d preemptions' % len(case['preemptions']))
        if result['stalls']:
            ctx.outcome('waited for a lock')
        self.steps, self.who, self.finish = result['steps'], result['who'], result['finish']
        if result['bad']:
            what, expected, got = result['bad']
            raise core.Mismatch('threads %s, first %d, switches (yield point, thread) %s: %s'
                                % ([OPS[i] for i in case['ops']], case['first'], case['preemptions'], what), expected, got)

    def execute(self, case):
        gc.disable()
        world = World() if case['own'] else self.zygote
        templates = plain([t.serialize() for t in world.templates])
        functions = []
        for i in case['ops']:
            op = OPS[i]
            functions.append(lambda op=op: plain(FUNCTIONS[op[0]](world, *op[1:])))
        run = threads.Run(functions, case['first'], case['preemptions'], opcodes=case['opcodes'],
                          visits=1 if case['opcodes'] == 'calls' else threads.VISITS)
        result = {'bad': None}
        alive = run.run()
        result.update(steps=run.steps, who=''.join(map(str, run.who)), finish=run.finish, stalls=run.stalls)
        if not alive:
            result['bad'] = ['threads wait for each other for ever', 'all threads finish', run.finished]
            return result
        for i, got in zip(case['ops'], run.results):
            if got != ['ok', self.expected[i]]:
                result['bad'] = ['result of %s' % (OPS[i],), self.expected[i], got]
                return result
        got = plain(snapshot(world))
        got[2] = plain([t.serialize() for t in world.templates])
        for e, g, name in zip(self.snapshot[:2] + [templates] + self.snapshot[3:], got,
                              ('words', 'variables', 'templates', 'numbers', 'dictionary')):
            if e != g:
                result['bad'] = ['%s changed' % name, [x for x in e if x not in g][:3], [x for x in g if x not in e][:3]]
                return result
        for i in case['ops']:
            if OPS[i] == ('many',):
                continue
            got = plain(FUNCTIONS[OPS[i][0]](world, *OPS[i][1:]))
            if got != self.expected[i]:
                result['bad'] = ['later result of %s' % (OPS[i],), self.expected[i], got]
                return result
        return result

    def shrink(self, case):
        for i in range(len(case['preemptions'])):
            yield dict(case, preemptions=case['preemptions'][:i] + case['preemptions'][i + 1:])
