"""Exploration engine shared by all checks.

A check enumerates *cases* (JSON values), grouped in *shards* that run in parallel worker processes.  For every case the
real code is executed and compared, step by step, with the reference model.  Counters:

  states       distinct configurations of the model that were visited (deduplicated by key inside a shard; shards of a
               check never overlap)
  transitions  steps of the model compared with the same step of the real code
  traces       cases, that is, complete executions of the real code that were validated against the model
"""
import importlib
import itertools
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UTG_REPO', '/repo')
QUICK_LIMIT = float(os.environ.get('MC_LIMIT', '600'))     # seconds, quick tier only
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LOST_AFTER = 60      # seconds without results after which the parts of ended processes count as lost
CASE_LIMIT = 30      # seconds one case may take before it counts as a hang
MAX_REPORTED = 5


class CaseTimeout(BaseException):
    pass


class Mismatch(Exception):
    def __init__(self, what, expected=None, got=None):
        Exception.__init__(self, what)
        self.what, self.expected, self.got = what, expected, got

    def as_dict(self):
        return {'what': self.what, 'expected': _jsonable(self.expected), 'got': _jsonable(self.got)}


def _jsonable(value):
    try:
        json.dumps(value)
        return value
    except (TypeError, ValueError):
        return repr(value)


class Ctx(object):
    """collects counters and mismatches of one shard"""

    def __init__(self, check, tier):
        self.check, self.tier = check, tier
        self.traces = self.transitions = self.plain_states = 0
        self.seen = set()
        self.outcomes = {}
        self.samples = []
        self.mismatches = []
        self.known = {}
        self.index = 0
        self.stop_after = None
        self._ticks_on_case = 0
        self._tick_index = -1

    # counters -----------------------------------------------------------------------------------------
    def state(self, key=None):
        if key is None:
            self.plain_states += 1
        else:
            self.seen.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    # running ------------------------------------------------------------------------------------------
    def run(self, case):
        self.index += 1
        self.traces += 1
        if len(self.samples) < 2 or (self.traces & (self.traces - 1)) == 0 and len(self.samples) < 6:
            self.samples.append(case)
        try:
            self.check.run_case(case, self)
        except Mismatch as m:
            self._fail(case, m.as_dict())
        except CaseTimeout:
            self._fail(case, {'what': 'no result after %d s' % CASE_LIMIT, 'expected': 'termination', 'got': 'hang'})
        except ENVIRONMENT:
            raise
        except Exception as e:
            self._fail(case, failure_info(e))
        return not self.mismatches

    def _fail(self, case, info):
        key = self.check.finding_key(case, info)
        if key is not None and key in self.check.known_keys:
            self.known[key] = self.known.get(key, 0) + 1
            return
        self.mismatches.append({'case': case, 'index': self.index, 'info': info})
        if len(self.mismatches) >= MAX_REPORTED:
            raise StopShard()

    # watchdog -----------------------------------------------------------------------------------------
    def tick(self, signum, frame):
        if self._tick_index == self.index:
            self._ticks_on_case += 1
            if self._ticks_on_case * 5 >= CASE_LIMIT:
                self._ticks_on_case = 0
                raise CaseTimeout()
        else:
            self._tick_index, self._ticks_on_case = self.index, 0


class StopShard(Exception):
    pass


# trouble of the machine, not of the code under test
ENVIRONMENT = (OSError, MemoryError, StopShard)


def failure_info(e):
    """the cases never fail on code that has the property, so a failure while building or observing objects is a mismatch"""
    where = 'from the library' if from_repo(e) else 'while using the library'
    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    return {'what': 'unexpected %s %s' % (type(e).__name__, where), 'expected': 'no failure', 'got': text[-1500:]}


def from_repo(e):
    """does the innermost frame outside the standard library belong to the code under test?"""
    tb, last = e.__traceback__, None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO + os.sep):
            last = True
        elif name.startswith(VERIF + os.sep):
            last = False
        tb = tb.tb_next
    return bool(last)


class Check(object):
    """base class of all checks"""
    id = None
    rule = ''
    assumptions = ()
    exhaustive = True

    def __init__(self):
        self.known_keys = load_known(self.id)

    def prepare(self, tier):
        """before workers are forked"""

    def shards(self, tier):
        raise NotImplementedError

    def explore(self, shard, ctx):
        raise NotImplementedError

    def run_case(self, case, ctx):
        raise NotImplementedError

    def finding_key(self, case, info):
        return None

    def shrink(self, case):
        """smaller variants of a failing case, simplest first"""
        return ()


def load_known(property_id):
    """committed list of recorded findings; 'fixed:' lines suppress nothing"""
    keys = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == property_id:
                    keys[m.group(2)] = m.group(3)
    return keys


def load_check(property_id):
    return importlib.import_module('mc.checks.%s' % property_id.lower()).Check_()


_CURRENT = None


def _run_shard(args):
    number, shard, tier = args
    check = _CURRENT
    ctx = Ctx(check, tier)
    error = None
    signal.signal(signal.SIGALRM, ctx.tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        check.explore(shard, ctx)
    except StopShard:
        pass
    except Exception:
        error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'number': number, 'traces': ctx.traces, 'transitions': ctx.transitions,
            'states': ctx.plain_states + len(ctx.seen), 'outcomes': ctx.outcomes, 'samples': ctx.samples,
            'mismatches': ctx.mismatches, 'known': ctx.known, 'error': error}


def explore(jobs, results, workers, started, tier):
    """results of the jobs, as they come; the jobs lost with a process that was ended from outside"""
    first = len(results)
    pool = multiprocessing.get_context('fork').Pool(min(max(1, len(jobs)), workers), maxtasksperchild=None)
    processes = set(pool._pool)
    quiet_since = time.time()
    try:
        running = pool.imap_unordered(_run_shard, jobs, chunksize=1)
        while len(results) - first < len(jobs):
            if tier == 'quick' and time.time() > started + QUICK_LIMIT:
                return []       # a machine several times slower than usual: what was not explored is said in the output and in the evidence
            try:
                results.append(running.next(1))
                quiet_since = time.time()
            except multiprocessing.TimeoutError:
                processes.update(pool._pool)      # the pool replaces the ended ones
                ended = sum(not p.is_alive() for p in processes)
                # every ended process took at most one job with it; a job without an end is stopped by the limit of one execution
                if ended and len(results) - first >= len(jobs) - ended and time.time() > quiet_since + LOST_AFTER:
                    break
                continue
            if sum(len(r['mismatches']) for r in results) >= (1 if os.environ.get('MC_FIRST') else 40):
                return []       # MC_FIRST: only whether there is one (tools/)
    finally:
        pool.terminate()
        pool.join()
    numbers = {r['number'] for r in results}
    return [j for j in jobs if j[0] not in numbers]


def simplicity(m):
    text = json.dumps(m['case'], ensure_ascii=False)
    return (len(text), text)


def _raise(error):
    def raising(tier):
        raise error
    return raising


def main(property_id, tier):
    global _CURRENT
    started = time.time()
    if not os.path.exists(os.path.join(VERIF, 'mc', 'checks', property_id.lower() + '.py')):
        print('no check of property %s' % property_id)
        return 2
    broken = None
    try:
        check = _CURRENT = load_check(property_id)
    except ENVIRONMENT:
        raise
    except Exception as e:      # the library cannot be imported or lacks documented names
        check = _CURRENT = Check()
        check.prepare = _raise(e)
    try:
        check.prepare(tier)
        shards = list(check.shards(tier))
    except ENVIRONMENT:
        raise
    except Exception as e:
        info = e.as_dict() if isinstance(e, Mismatch) else failure_info(e)
        broken = {'case': 'preparation', 'index': 0, 'info': info, 'shard': None}
        shards = []
    jobs = [(i, s, tier) for i, s in enumerate(shards)]

    results = []
    lost = explore(jobs, results, int(os.environ.get('MC_JOBS', os.cpu_count() or 4)), started, tier)
    if lost:        # processes ended from outside (memory): once more, fewer at a time
        lost = explore(lost, results, 2, started, tier)

    errors = [r for r in results if r['error']]
    mismatches = sorted((dict(m, shard=shards[r['number']]) for r in results for m in r['mismatches']), key=simplicity)
    if broken:
        mismatches = [broken]
    known, outcomes = {}, {}
    for r in results:
        for key, n in r['known'].items():
            known[key] = known.get(key, 0) + n
        for key, n in r['outcomes'].items():
            outcomes[key] = outcomes.get(key, 0) + n

    complete = len(results) == len(jobs) and not errors and not mismatches
    samples = []
    for r in sorted(results, key=lambda r: r['number']):
        samples.extend(r['samples'][:2])
        if len(samples) >= 8:
            break

    evidence = {'property': property_id, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
                'coverage': {'states': sum(r['states'] for r in results),
                             'transitions': sum(r['transitions'] for r in results),
                             'traces_validated_against_impl': sum(r['traces'] for r in results),
                             'samples': samples[:8], 'outcomes': outcomes, 'rule': check.rule,
                             'shards': len(results), 'shards_planned': len(jobs), 'exhaustive': bool(check.exhaustive and complete)},
                'assumptions': list(check.assumptions), 'wall_s': round(time.time() - started, 2),
                'violations': len(mismatches), 'known_findings': known}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', property_id + '.json'), 'w', errors='backslashreplace') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1, default=repr)
        f.write('\n')

    print('%s %s: %d states, %d transitions, %d executions of the real code, %.1f s'
          % (property_id, tier, evidence['coverage']['states'], evidence['coverage']['transitions'],
             evidence['coverage']['traces_validated_against_impl'], evidence['wall_s']))
    if len(results) < len(jobs) and not mismatches:
        print('stopped after %d s: %d of %d parts explored' % (QUICK_LIMIT, len(results), len(jobs)))
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s (%d cases)' % (property_id, key, check.known_keys[key], known[key]))

    if mismatches:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        path = os.path.join(VERIF, 'out', '%s.replay.json' % property_id)
        first = mismatches[0]
        first = minimise(check, first, tier) if not (broken or os.environ.get('MC_FIRST')) else dict(first, isolated=True)
        with open(path, 'w', errors='backslashreplace') as f:
            json.dump(dict(first, property=property_id, tier=tier), f, ensure_ascii=False, indent=1, default=repr)
            f.write('\n')
        print('case: %s' % json.dumps(first['case'], ensure_ascii=False, default=repr)[:2000])
        print('  %s' % first['info']['what'])
        print('  expected: %s' % str(first['info']['expected'])[:1500])
        print('  got:      %s' % str(first['info']['got'])[:1500])
        print('VIOLATION property=%s replay=%s' % (property_id, path))
        return 1
    if lost:
        print('ERROR: %d parts were lost twice with the processes exploring them' % len(lost), file=sys.stderr)
        return 2
    if errors:
        print(errors[0]['error'], file=sys.stderr)
        print('ERROR: the check itself failed in %d shards' % len(errors), file=sys.stderr)
        return 2
    return 0


def _isolated(check, case, tier):
    """mismatch of a single case in a fresh child process, or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            ctx = Ctx(check, tier)
            signal.signal(signal.SIGALRM, ctx.tick)
            signal.setitimer(signal.ITIMER_REAL, 5, 5)
            ctx.run(case)
            data = json.dumps(ctx.mismatches[:1], default=repr).encode()
        except BaseException:
            data = b'[]'
        try:
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    os.waitpid(pid, 0)
    found = json.loads(b''.join(chunks) or b'[]')
    return found[0] if found else None


def minimise(check, failure, tier, budget=20):
    alone = _isolated(check, failure['case'], tier)
    if alone is None:
        # depends on the cases executed before it in the same process: replay runs the shard up to that case
        return dict(failure, isolated=False)
    best = dict(failure, isolated=True, info=alone['info'])
    end = time.time() + budget
    progress = True
    while progress and time.time() < end:
        progress = False
        for smaller in check.shrink(best['case']):
            alone = _isolated(check, smaller, tier)
            if alone is not None:
                best = dict(best, case=smaller, info=alone['info'])
                progress = True
                break
            if time.time() > end:
                break
    return best


def replay(path):
    global _CURRENT
    with open(path) as f:
        failure = json.load(f)
    if failure['case'] != 'preparation':
        check = _CURRENT = load_check(failure['property'])
    else:
        try:
            check = _CURRENT = load_check(failure['property'])
            check.prepare(failure['tier'])
            list(check.shards(failure['tier']))
        except Exception:
            traceback.print_exc()
            print('REPRODUCED')
            return 1
        print('NOT REPRODUCED')
        return 0
    check.prepare(failure['tier'])
    ctx = Ctx(check, failure['tier'])
    signal.signal(signal.SIGALRM, ctx.tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    if failure.get('isolated'):
        ctx.run(failure['case'])
    else:
        try:
            check.explore(failure['shard'], ctx)
        except StopShard:
            pass
    for m in ctx.mismatches[:1]:
        print('case: %s' % json.dumps(m['case'], ensure_ascii=False, default=repr))
        print('  %s\n  expected: %s\n  got:      %s' % (m['info']['what'], m['info']['expected'], m['info']['got']))
    print('REPRODUCED' if ctx.mismatches else 'NOT REPRODUCED')
    return 1 if ctx.mismatches else 0


# ----------------------------------------------------------------------------------------------- helpers

def chunks(n, total):
    """[(start, stop)] covering range(total) in about n pieces"""
    if not total:
        return []
    n = max(1, min(n, total))
    size = -(-total // n)
    return [(i, min(total, i + size)) for i in range(0, total, size)]


def strings(alphabet, max_length, min_length=0):
    for length in range(min_length, max_length + 1):
        for t in itertools.product(alphabet, repeat=length):
            yield t


def subdicts(d):
    keys = list(d)
    for n in range(len(keys) + 1):
        for c in itertools.combinations(keys, n):
            yield {k: d[k] for k in c}


def partial_assignments(relations, names):
    """all partial assignments of the relations, {} first"""
    for combo in itertools.product(*[[None] + list(names[rel]) for rel in relations]):
        yield {rel: n for rel, n in zip(relations, combo) if n is not None}
