"""C21: import orders and hash seeds, each in a fresh interpreter."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from mc import core, spec

DIGEST = os.path.join(core.VERIF, 'mc', 'digest.py')
NAMES = ['constructors', 'data', 'dictionary', 'exceptions', 'lexicon', 'logic', 'relations', 'restrictions', 'templates', 'transformators',
         'utils', 'words']
MIGRATIONS = ['migrations.' + m for m in ('m_0001_include_short_forms_in_full', 'm_0002_countable_noun_form', 'm_0004_new_preposition_form',
                                          'm_0005_remove_time_participle_property', 'm_0007_reduce_words_forms',
                                          'm_0008_lower_animiality_nearest_priority', 'm_0009_pronoun_modernization')]


def digest_of(value):
    return hashlib.sha256(json.dumps(value, ensure_ascii=False, sort_keys=True).encode()).hexdigest()


def expected():
    """the parts of the digest that follow from the documentation"""
    result = {}
    result['relations'] = sorted([rel, [list(rec) for rec in recs]] for rel, recs in spec.RELATIONS.items())
    result['identifiers'] = sorted([s, [list(x) for x in spec.serialize_props(spec.props(v)).items()]] for v, s in spec.VERBOSE.items())
    result['defaults'] = sorted([rel, d] for rel, d in spec.DEFAULT.items())
    result['keys'] = [[t, [list(key) for key in spec.SLOTS[t]]] for t in spec.TYPES]
    result['resolved'] = [[t, [str(spec.resolve_key(t, c)) for c in itertools.product(*[spec.NAMES[rel] for rel in spec.SCHEMA[t]])]]
                          for t in spec.TYPES]
    values = sorted((rel, rec[1]) for rel, recs in spec.RELATIONS.items() for rec in recs)
    name = {(rel, rec[1]): rec[0] for rel, recs in spec.RELATIONS.items() for rec in recs}
    texts = []
    for i in range(len(values)):
        p = spec.props(*['%s.%s' % (rel, name[rel, v]) for rel, v in (values[i], values[i * 7 % len(values)], values[i * 5 % len(values)])])
        texts.append([spec.render(p), spec.non_default(p), sorted([list(x) for x in spec.serialize_props(p).items()])])
    result['texts'] = texts
    return {k: digest_of(v) for k, v in result.items()}


ENVIRONMENTS = [{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX'}, {'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8'}]
FLAGS = [[], ['-O'], ['-OO'], ['-I'], ['-X', 'dev']]


def run(order, seed, flags=0, environment=0):
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': str(seed), 'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1',
           'UTG_REPO': core.REPO, 'LC_ALL': 'C.UTF-8'}
    env.update(ENVIRONMENTS[environment])
    done = subprocess.run([sys.executable, '-B', '-W', 'ignore'] + FLAGS[flags] + [DIGEST] + ['utg.' + m for m in order],
                          env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd='/')
    if done.returncode:
        raise core.Mismatch('modules %s, hash seed %s, %s %s: failure' % (order, seed, FLAGS[flags], ENVIRONMENTS[environment]), 'a digest', done.stderr.decode(errors='replace')[-1200:])
    return json.loads(done.stdout.decode('utf-8', 'surrogatepass'))


BROKEN = ['migrations.m_0003_change_verb_forms', 'migrations.m_0006_per_word_type_restrictions']       # recorded findings


class Check_(core.Check):
    id = 'C21'
    rule = ('state = (order of the first imports, hash seed); every state is a fresh interpreter that imports the modules in that order and '
            'prints a digest of all tables, identifiers, renderings and generated texts; the digest is compared with the model and with '
            'the one of a reference run')

    def prepare(self, tier):
        self.expected = expected()
        self.reference = run([], 0)

    def shards(self, tier):
        orders = [[]] + [[m] for m in NAMES + MIGRATIONS] + [list(p) for p in itertools.permutations(NAMES, 2)]
        orders += [[m] for m in BROKEN] + [MIGRATIONS, MIGRATIONS[::-1]] + [[m, n] for m in MIGRATIONS for n in ('words', 'constructors')]
        if tier == 'thorough':
            orders += [list(p) for p in itertools.permutations(NAMES, 3)] + [NAMES, NAMES[::-1]]
            seeds = range(0, 400)
        else:
            seeds = range(0, 48)
        cases = [{'order': o, 'seed': (i * 7 + core.SEED) % 1000} for i, o in enumerate(orders)]
        cases += [{'order': o, 'seed': s} for s in seeds for o in ([], ['words'])]
        cases += [{'order': o, 'seed': 1, 'flags': f, 'environment': e} for f in range(len(FLAGS)) for e in range(len(ENVIRONMENTS)) for o in ([], ['words'])]
        for lo, hi in core.chunks(64, len(cases)):
            yield {'cases': cases[lo:hi]}

    def explore(self, shard, ctx):
        for case in shard['cases']:
            ctx.run(case)

    def finding_key(self, case, info):
        if len(case['order']) == 1 and case['order'][0] in BROKEN and 'CONDITIONAL' in str(info):
            return 'import-' + case['order'][0].split('.')[1][:6]
        return None

    def run_case(self, case, ctx):
        flags, environment = case.get('flags', 0), case.get('environment', 0)
        got = run(case['order'], case['seed'], flags, environment)
        ctx.state((tuple(case['order']), case['seed'], flags, environment))
        ctx.step(len(self.expected) + 1)
        what = 'modules %s first, hash seed %s, %s %s: ' % (case['order'], case['seed'], FLAGS[flags], ENVIRONMENTS[environment])
        for name, value in self.expected.items():
            if got[name] != value:
                raise core.Mismatch(what + name + ' differ from the documented ones', value, got[name])
        if got['stable_list']:
            raise core.Mismatch(what + 'importing or using the rest of the library changes', [], got['stable_list'])
        for name in self.reference:
            if got[name] != self.reference[name]:
                raise core.Mismatch(what + name + ' differ', self.reference[name], got[name])

    def shrink(self, case):
        for i in range(len(case['order'])):
            yield dict(case, order=case['order'][:i] + case['order'][i + 1:])
        if case['seed']:
            yield dict(case, seed=0)
