"""C13: purity; all sequences of operations on shared objects, each from a cold process."""
import itertools
import json

from mc import adapter as a, core, isolate, spec
from mc.checks import c04
from mc.checks.c04 import labels

WORDS = [spec.W('ADJECTIVE', labels('ADJECTIVE'), {'ADJECTIVE_CATEGORY': 'QUALITY'}),
         spec.W('VERB', labels('VERB'), {'ASPECT': 'PERFECTIVE'}),
         spec.W('NOUN', labels('NOUN'), {'ANIMALITY': 'INANIMATE', 'GENDER': 'FEMININE'}),
         spec.W('PREPOSITION', ['в', 'во', 'во!']),
         spec.W('PREPOSITION', ['о', 'об', 'обо'])]
EXTERNALS = {
    'герой': spec.F(spec.W('NOUN', ['герой%d' % i for i in range(18)], {'ANIMALITY': 'ANIMATE', 'GENDER': 'MASCULINE'})),
    'сон': spec.F(spec.W('NOUN', ['всон', 'всна'] + ['вснам'] * 16, {'ANIMALITY': 'INANIMATE', 'GENDER': 'MASCULINE'}),
                  {'CASE': 'ACCUSATIVE'}),
    'ты': spec.F(spec.W('PRONOUN', labels('PRONOUN'), {'PERSON': 'SECOND'}), {'NUMBER': 'PLURAL'}),
    'число': None,
}
TEMPLATES = ['[Герой|вн] %[adjective10|герой]',
             '[число] [noun0|число|вн] [adjective0|число|сзв]',
             '[в|сон] [сон] [о|герой]',
             '[verb2|герой|число|мн] [герой|мн,дт|ты]',
             '[Число] [ты|загл] [preposition|число][noun3|сон|тв]',
             '[verb1|ты] [adjective99|сон|нет]'][:5]
NUMBERS = (1, 3, 5, 22, 20001)
EXTERNAL_NAMES = tuple(EXTERNALS)


def externals_model(n):
    return dict(EXTERNALS, число=spec.integer(n))


class World(object):
    """the shared objects of one execution"""

    def __init__(self):
        self.words = [a.word(w) for w in WORDS]
        self.dictionary = a.dictionary.Dictionary(words=self.words)
        self.forms = {name: a.form(f) for name, f in EXTERNALS.items() if f is not None}
        self.templates = [a.template(t, EXTERNAL_NAMES) for t in TEMPLATES]
        self.scratch = a.templates.Template()

    def externals(self, n):
        return dict(self.forms, число=a.constructors.construct_integer(n))


def op_substitute(world, i, n):
    return a.outcome(lambda: world.templates[i].substitute(world.externals(n), world.dictionary))[:2]


def op_partial(world, i, name):
    """generation that fails: a variable is missing"""
    externals = world.externals(5)
    del externals[name]
    return a.outcome(lambda: world.templates[i].substitute(externals, world.dictionary))[:2]


def op_empty_dictionary(world, i):
    return a.outcome(lambda: world.templates[i].substitute(world.externals(2), a.dictionary.Dictionary()))[:2]


def op_parse(world, text):
    return a.outcome(lambda: world.scratch.parse(text, externals=EXTERNAL_NAMES))[:2]


def op_serialize(world):
    copies = [a.templates.Template.deserialize(json.loads(json.dumps(t.serialize()))) for t in world.templates]
    words = [a.words.Word.deserialize(json.loads(json.dumps(w.serialize()))) for w in world.words]
    return ('ok', [c == t for c, t in zip(copies, world.templates)] + [c == w for c, w in zip(words, world.words)])


def op_copy_and_fill(world):
    """a word with the same text, filled in: others must not be affected"""
    copy = a.words.Word.deserialize(json.loads(json.dumps(world.words[2].serialize())))
    copy.forms[0] = copy.forms[3] = ''
    before = copy.normal_form(), copy.number_of_syllables, copy.has_fluent_vowel, copy.form(a.words.Properties(a.VALUE['CASE.ACCUSATIVE']))
    copy.autofill_missed_forms()
    return ('ok', [before[0], before[3], copy.normal_form(), copy.forms[3], copy.form(a.words.Properties(a.VALUE['CASE.ACCUSATIVE']))])


def op_forms(world):
    return ('ok', [w.form(a.words.Properties(a.VALUE['NUMBER.PLURAL'], a.VALUE['CASE.DATIVE'])) for w in world.words] +
            [f.form for w in world.words for f in w.all_forms()][:40])


def op_phonetics(world):
    return ('ok', [[w.number_of_syllables, w.has_fluent_vowel] for w in world.words] +
            [f.starts_with_consonant_cluster for f in world.forms.values()])


def op_compare(world):
    return ('ok', [len(set(world.words)), len(set(world.forms.values())), world.words[0] == world.words[1],
                   world.forms['герой'] == world.forms['сон'], world.templates[0] == world.templates[1]])


def op_merge(world):
    p = world.forms['сон'].properties
    q = p.clone(a.VALUE['CASE.DATIVE'], a.VALUE['NUMBER.PLURAL'])
    s = a.words.Properties(q, world.words[0].properties, None, a.VALUE['GENDER.NEUTER'])
    i = a.constructors.construct_integer(1).properties.clone(a.VALUE['NUMBER.PLURAL'], a.VALUE['CASE.DATIVE'])
    return ('ok', [a.observe(p), a.observe(q), a.observe(s), a.observe(i)])


def op_lookup(world):
    return ('ok', [world.dictionary.get_word(w.forms[0]).form for w in world.words] +
            [world.dictionary.has_word('нет'), len(world.dictionary.get_words()),
             [t.get_undictionaried_words(EXTERNAL_NAMES, world.dictionary) for t in world.templates]])


def op_default_arguments(world):
    """uses default arguments of every constructor, and changes the objects it gets"""
    w = a.words.Word(a.TYPE['NOUN'], ['x'] * 17 + [''])
    w.autofill_missed_forms()
    d = a.dictionary.Dictionary()
    d.add_word(w)
    lex = a.lexicon.Lexicon()
    lex.add_template('k', 't')
    f = a.words.WordForm(w)
    t = a.templates.Template()
    t.parse('[x]', externals=())
    d.get_words(), d.has_word('y'), lex.has_key('q'), list(lex.get_templates('q', frozenset())), lex.get_random_nearest_template('k')
    e = a.words.Properties()
    e.clone(a.VALUE['CASE.DATIVE']), e.serialize(), str(e), hash(e), e.manhattan_distance()
    s = a.templates.Substitution()
    s.dependencies.append('x')
    return ('ok', [a.observe(w.properties), a.observe(f.properties), w.forms[17], lex.get_random_template('k'),
                   t.substitute({}, d)])


CATALOGUE = []
for _i in range(len(TEMPLATES)):
    for _n in (1, 5) if _i else (3,):
        CATALOGUE.append(('substitute', _i, _n))
CATALOGUE += [('substitute', 1, 22), ('substitute', 3, 20001), ('partial', 3, 'герой'), ('partial', 0, 'герой'), ('partial', 2, 'сон'),
              ('empty_dictionary', 2), ('parse', '[герой|вн] [noun1|герой]'), ('parse', '[герой] [ошибка|нет]'), ('serialize',),
              ('copy_and_fill',), ('forms',), ('phonetics',), ('compare',), ('merge',), ('lookup',), ('default_arguments',)]
SESSION_WORDS = [spec.W('NOUN', ['слово%d' % i for i in range(18)], {'GENDER': 'NEUTER'}), spec.W('VERB', ['слово%d' % i for i in range(20)]),
                 spec.W('TEXT', ['ещё']), spec.W('NOUN', ['слово0'] + ['а%d' % i for i in range(17)]),
                 spec.W('NOUN', ['дыра%d' % i if i in (0, 1, 4, 7) else '' for i in range(18)], {'GENDER': 'FEMININE'}),
                 spec.W('VERB', ['нёс%d' % i if i % 4 == 0 else '' for i in range(20)])]
SESSION_FORMS = [spec.text_form('раз'), spec.F(SESSION_WORDS[0], {'CASE': 'DATIVE'}), spec.integer(1), spec.integer(2), spec.integer(5), spec.F(SESSION_WORDS[4], {'CASE': 'GENITIVE'})]
SESSION_NAMES = ('х', 'ч')
SESSION_TEXTS = ['[х] [слово3|х] [ещё]', '[слово0|ч|вн][Х|ч]', '[х|нет]', '[дыра0|мн][х] [дыра0|тв] [нёс4|х][нёс0|мн] [слово3|х]', '[дыра0|пр|счт][Х|х|мн]']
CHANGES = [('set', ('х', 1)), ('set', ('х', 2)), ('set', ('х', 4)), ('set', ('ч', 3)), ('set', ('ч', 1)), ('del', 'х'), ('del', 'ч'), ('add', 1), ('add', 2),
           ('add', 3), ('new', 0), ('new', 3), ('copy', None), ('parse', 0), ('parse', 1), ('parse', 2)]
# words are completed in place between generations
FILLS = [('set', ('х', 5)), ('set', ('х', 1)), ('parse', 3), ('parse', 4), ('add', 4), ('add', 5), ('fill', 4), ('fill', 5), ('fill', 'х')]
SERIES = {'session': CHANGES, 'fills': FILLS}
POOL_DEPS = ['вн', 'мн,жр', 'сзв', 'загл', 'герой', 'часы', 'два', 'пять', 'хитр', 'т']
FUNCTIONS = {name[3:]: f for name, f in list(globals().items()) if name.startswith('op_')}


def expected_of(op):
    """history-free answer of the model"""
    dictionary = spec.D(WORDS)
    if op[0] == 'substitute':
        e = externals_model(op[2])
        return a.model_outcome(lambda: spec.T(TEMPLATES[op[1]], EXTERNAL_NAMES).substitute(e, dictionary))[:2]
    if op[0] == 'partial':
        e = externals_model(5)
        del e[op[2]]
        return a.model_outcome(lambda: spec.T(TEMPLATES[op[1]], EXTERNAL_NAMES).substitute(e, dictionary))[:2]
    if op[0] == 'empty_dictionary':
        return a.model_outcome(lambda: spec.T(TEMPLATES[op[1]], EXTERNAL_NAMES).substitute(externals_model(2), spec.D()))[:2]
    if op[0] == 'parse':
        r = a.model_outcome(lambda: spec.T(op[1], EXTERNAL_NAMES))
        return (r[0], None if r[0] == 'ok' else r[1])
    if op[0] == 'serialize':
        return ('ok', [True] * (len(TEMPLATES) + len(WORDS)))
    if op[0] == 'copy_and_fill':
        w = WORDS[2].copy()
        w.forms[0] = w.forms[3] = ''
        w.autofill()
        return ('ok', ['', '', w.forms[0], w.forms[3], w.forms[3]])
    if op[0] == 'forms':
        p = {'NUMBER': 'PLURAL', 'CASE': 'DATIVE'}
        return ('ok', [w.text(p) for w in WORDS] + [f.text for w in WORDS for f in w.all_forms()][:40])
    if op[0] == 'phonetics':
        return ('ok', [[w.syllables(), w.fluent()] for w in WORDS] + [f.cluster() for f in EXTERNALS.values() if f])
    if op[0] == 'compare':
        return ('ok', [len(WORDS), len(EXTERNALS) - 1, False, False, False])
    if op[0] == 'merge':
        p = EXTERNALS['сон'].props
        q = spec.props(p, 'CASE.DATIVE', 'NUMBER.PLURAL')
        return ('ok', [p, q, spec.props(q, WORDS[0].props, 'GENDER.NEUTER'),
                       spec.props(spec.integer_props(1), 'NUMBER.PLURAL', 'CASE.DATIVE')])
    if op[0] == 'lookup':
        return ('ok', [w.forms[0] for w in WORDS] +
                [False, len(WORDS), [spec.T(t, EXTERNAL_NAMES).missing(EXTERNAL_NAMES, dictionary) for t in TEMPLATES]])
    if op[0] == 'default_arguments':
        return ('ok', [{}, {}, 'x', 't', 'x'])


def snapshot(world):
    return [[a.observe_word(w) for w in world.words],
            sorted([name, a.observe_form(f), a.observe(f.form_properties), f.form] for name, f in world.forms.items()),
            [t.serialize() for t in world.templates],
            [[n, a.observe_form(a.constructors.construct_integer(n)), a.constructors.construct_integer(n).form] for n in NUMBERS],
            sorted((text, a.observe_form(world.dictionary.get_word(text))) for w in WORDS for text in w.forms)]


def model_snapshot():
    d = spec.D(WORDS)
    return [[w.key() for w in WORDS],
            sorted([name, f.key(), f.form_props, f.text] for name, f in EXTERNALS.items() if f is not None),
            None,
            [[n, spec.integer(n).key(), spec.integer(n).text] for n in NUMBERS],
            sorted((text, d.data[text].key()) for w in WORDS for text in w.forms)]


def plain(x):
    return json.loads(json.dumps(x))


class Check_(core.Check):
    id = 'C13'
    rule = ('case = sequence of operations on one set of shared objects, executed in a child process in which the library has not '
            'been used yet; state = (set of operations done before, next operation); afterwards every object is compared with its '
            'initial snapshot and every catalogue operation is executed once more; case {slave, deps} = one substitution with every '
            'list of dependencies up to the bound, generated twice (and once without each variable) from objects shared with all '
            'other cases, after which template, word, variables and dictionary entries are compared with what they were')

    def prepare(self, tier):
        self.expected = [plain(expected_of(op)) for op in CATALOGUE]
        self.snapshot = plain(model_snapshot())
        self.pool = {name: a.form(f) for name, f in c04.EXTERNALS.items()}
        self.pool_dictionary = a.make_dictionary(c04.DICTIONARY)
        self.pool_model = spec.D(c04.DICTIONARY)
        self.initial = {name: (f.props, f.form_props, f.word.props, f.word.forms) for name, f in c04.EXTERNALS.items()}

    def shards(self, tier):
        length = 3 if tier == 'quick' else 4
        for x in range(len(CATALOGUE)):
            for y in range(len(CATALOGUE)):
                yield {'prefix': [x, y], 'length': length}
        yield {'short': True}
        for slave in c04.SLAVE_IDS:
            yield {'slave': slave, 'deps': c04.DEPS, 'lengths': [0, 1, 2]}
            for first in POOL_DEPS:
                yield {'slave': slave, 'deps': POOL_DEPS, 'lengths': [2] if tier == 'quick' else [2, 3], 'first': first}
            if tier == 'thorough':
                for first in c04.CORE_DEPS:
                    yield {'slave': slave, 'deps': c04.CORE_DEPS, 'lengths': [2], 'first': first}

        for first in range(len(FILLS)):
            for second in range(len(FILLS)):
                yield {'fills': [first, second], 'length': 5 if tier == 'quick' else 6}
        for first in range(len(CHANGES)):
            for second in range(len(CHANGES)):
                yield {'session': [first, second], 'length': 4 if tier == 'quick' else 5}

    def explore(self, shard, ctx):
        for series, changes in SERIES.items():
            if series in shard:
                for length in range(shard['length'] - 1):
                    for rest in itertools.product(range(len(changes)), repeat=length):
                        ctx.run({series: shard[series] + list(rest)})
                        ctx.run({series: shard[series] + list(rest), 'silent': True})
                return
        if 'slave' in shard:
            first = [shard['first']] if 'first' in shard else []
            for length in shard['lengths']:
                for deps in itertools.product(shard['deps'], repeat=length):
                    ctx.run({'slave': shard['slave'], 'deps': first + list(deps)})
            return
        if 'short' in shard:
            ctx.run([])
            for x in range(len(CATALOGUE)):
                ctx.run([x])
            return
        for n in range(shard['length'] - 1):
            for rest in itertools.product(range(len(CATALOGUE)), repeat=n):
                ctx.run(shard['prefix'] + list(rest))

    def run_pool(self, case, ctx):
        ctx.state()
        text = '[%s]' % '|'.join([case['slave']] + case['deps'])
        template = a.template(text, self.pool)
        stored = template.serialize()
        copy = json.dumps(stored, sort_keys=True)
        named = [n for n in dict.fromkeys([case['slave'].lower()] + case['deps']) if n in self.pool]
        expected = a.model_outcome(lambda: spec.T(text, c04.EXTERNALS).substitute(c04.EXTERNALS, self.pool_model))
        for attempt in ('first', 'second'):
            ctx.step()
            a.compare('%s text generated from %s' % (attempt, text), expected, a.outcome(template.substitute, self.pool, self.pool_dictionary))
        for name in named:
            ctx.step()
            fewer = {n: f for n, f in self.pool.items() if n != name}
            a.equal('generation of %s without %s' % (text, name), 'err', a.outcome(template.substitute, fewer, self.pool_dictionary)[0])
        if named:
            a.compare('text generated from %s after failures' % text, expected, a.outcome(template.substitute, self.pool, self.pool_dictionary))
        missing = spec.T(text, c04.EXTERNALS).missing(c04.EXTERNALS, self.pool_model)
        a.equal('missing words', missing, list(template.get_undictionaried_words(self.pool, self.pool_dictionary)))
        a.equal('template %s afterwards' % text, copy, json.dumps(template.serialize(), sort_keys=True))
        for name in named:
            f = self.pool[name]
            a.equal('variable %s after generation of %s' % (name, text), self.initial[name],
                    (a.observe(f.properties), a.observe(f.form_properties), a.observe(f.word.properties), list(f.word.forms)))
            a.equal('form of variable %s after generation of %s' % (name, text), c04.EXTERNALS[name].text, f.form)
        slave = case['slave'].lower()
        if slave in self.pool_model.data and slave not in self.pool:
            a.equal('word %s after generation of %s' % (slave, text), True, self.pool_dictionary.has_word(slave))
            f, m = self.pool_dictionary.get_word(slave), self.pool_model.data[slave]
            a.equal('word %s after generation of %s' % (slave, text), (m.props, m.word.props, m.word.forms),
                    (a.observe(f.properties), a.observe(f.word.properties), list(f.word.forms)))

    def session(self, case, series, ctx):
        """one template, one dict of variables and one dictionary, changed by the caller between generations"""
        changes = case[series]
        ctx.state((series, tuple(changes)))
        words = {}
        texts, session_words = SESSION_TEXTS, SESSION_WORDS
        if series == 'fills':
            # texts no other case has: what is remembered of equal words must not hide what is remembered of these
            tag = ''.join('абвгдежзи'[i] for i in changes) + ('_' if case.get('silent') else '')
            texts = [t.replace('дыра', 'дыра' + tag).replace('нёс', 'нёс' + tag) for t in texts]
            session_words = [spec.W(w.type, [t and t.replace('дыра', 'дыра' + tag).replace('нёс', 'нёс' + tag) for t in w.forms], w.props) for w in session_words]

        def known(i):
            # the word itself, not a copy: it is changed by 'fill'
            if i not in words:
                words[i] = (session_words[i].copy(), a.word(session_words[i]))
            return words[i]
        if series == 'fills':
            model_forms = SESSION_FORMS[:5] + [spec.F(known(4)[0], SESSION_FORMS[5].props)]
            forms = [a.form(f) for f in SESSION_FORMS[:5]] + [a.form(SESSION_FORMS[5], known(4)[1])]
        else:
            model_forms = SESSION_FORMS
            forms = [a.form(f) for f in SESSION_FORMS]
        m = {'e': {'х': SESSION_FORMS[0]}, 'd': spec.D(session_words[:1]), 't': spec.T(texts[0], SESSION_NAMES)}
        real = {'e': {'х': forms[0]}, 'd': a.make_dictionary(session_words[:1]), 't': a.template(texts[0], SESSION_NAMES)}
        done = []
        for i in [None] + changes:
            if i is not None:
                what, x = SERIES[series][i]
                done.append((what, x))
                if what == 'set':
                    m['e'][x[0]], real['e'][x[0]] = model_forms[x[1]], forms[x[1]]
                elif what == 'del':
                    m['e'].pop(x, None), real['e'].pop(x, None)
                elif what == 'add':
                    m['d'].add(known(x)[0])
                    real['d'].add_word(known(x)[1])
                elif what == 'fill':
                    one, two = (m['e']['х'].word, real['e']['х'].word) if x == 'х' else known(x)
                    one.autofill()
                    one.__dict__.pop('_ranked', None)
                    two.autofill_missed_forms()
                elif what == 'new':
                    m['d'], real['d'] = spec.D(session_words[:x]), a.make_dictionary(session_words[:x])
                elif what == 'copy':
                    m['e'], real['e'] = dict(m['e']), dict(real['e'])
                else:
                    expected = a.model_outcome(spec.T, texts[x], SESSION_NAMES)
                    got = a.outcome(real['t'].parse, texts[x], externals=SESSION_NAMES)
                    a.equal('parse after %s' % done, expected[0], got[0])
                    if expected[0] == 'ok':
                        m['t'] = expected[1]
                    else:
                        real['t'].parse(texts[0], externals=SESSION_NAMES)
                        m['t'] = spec.T(texts[0], SESSION_NAMES)
            if i is None or not case.get('silent') or len(done) == len(changes):
                ctx.step(2)
                a.compare('text after %s' % done, a.model_outcome(m['t'].substitute, m['e'], m['d']), a.outcome(real['t'].substitute, real['e'], real['d']))
                a.equal('missing words after %s' % done, m['t'].missing(m['e'], m['d']), list(real['t'].get_undictionaried_words(real['e'], real['d'])))

    def run_case(self, case, ctx):
        for series in SERIES:
            if isinstance(case, dict) and series in case:
                return self.session(case, series, ctx)
        if isinstance(case, dict):
            return self.run_pool(case, ctx)
        for n, i in enumerate(case):
            ctx.state((tuple(sorted(set(case[:n]))), i))
        ctx.step(len(case) + len(CATALOGUE))
        bad = isolate.run(self.execute, case)
        if bad:
            raise core.Mismatch('after %s: %s' % ([CATALOGUE[i] for i in case], bad[0]), bad[1], bad[2])

    def execute(self, case):
        if hasattr(a.constructors, '_INTEGER_CACHE_RIGHT'):
            a.constructors._INTEGER_CACHE_RIGHT = 30     # only makes the first construct_integer of every process cheaper
        world = World()
        templates = plain([t.serialize() for t in world.templates])
        for i in list(case) + (list(range(len(CATALOGUE))) if len(case) < 3 else list(range(0, len(CATALOGUE), 2))):
            op = CATALOGUE[i]
            got = plain(FUNCTIONS[op[0]](world, *op[1:]))
            if got != self.expected[i]:
                return ['operation %s' % (op,), self.expected[i], got]
        got = plain(snapshot(world))
        got[2] = plain([t.serialize() for t in world.templates])
        for e, g, name in zip(self.snapshot[:2] + [templates] + self.snapshot[3:], got,
                              ('words', 'variables', 'templates', 'numbers', 'dictionary')):
            if e != g:
                return ['%s changed' % name, [x for x in e if x not in g][:3], [x for x in g if x not in e][:3]]
        fresh = [a.observe(a.words.Properties()), a.observe(a.words.Word(a.TYPE['TEXT'], ['x']).properties),
                 a.dictionary.Dictionary().has_word('x') or len(a.templates.Substitution().dependencies) > 0 or len(a.dictionary.Dictionary().get_words()) > 0, a.dictionary.Dictionary().has_word('adjective0'),
                 a.lexicon.Lexicon().has_key('k'), len(a.templates.Template().get_undictionaried_words({}, world.dictionary))]
        if fresh != [{}, {}, False, False, False, 0]:
            return ['objects created with default arguments are not fresh', [{}, {}, False, False, False, 0], fresh]
        return None

    def shrink(self, case):
        for series in SERIES:
            if isinstance(case, dict) and series in case:
                for i in range(len(case[series])):
                    yield dict(case, **{series: case[series][:i] + case[series][i + 1:]})
                return
        if isinstance(case, dict):
            for i in range(len(case['deps'])):
                yield dict(case, deps=case['deps'][:i] + case['deps'][i + 1:])
            return
        for i in range(len(case)):
            yield case[:i] + case[i + 1:]
