"""Controlled scheduler: runs functions in real threads, one at a time, switching exactly where the plan says.

Yield points are the line (or byte-code, or call and return) events of frames that belong to the code under test.  A plan is a first thread and a
list of preemptions (number of the yield point, thread to continue with).  Yield points are numbered globally, in the order
in which the threads reach them; each thread stops at the same place of the code at most VISITS times, later visits are not
numbered, which bounds loops.
"""
import dis
import gc
import os
import sys
import threading
import types

from mc import core

PREFIX = os.path.join(core.REPO, 'utg') + os.sep
VISITS = 3
STALL = 0.25
TOOL = 3

# byte-code that reads or writes only the frame itself: a switch before it equals a switch before the next other one
_LOCAL = {op for name, op in dis.opmap.items()
          if name.startswith(('LOAD_FAST', 'STORE_FAST', 'LOAD_CONST', 'POP_', 'JUMP', 'RESUME', 'RETURN', 'NOP', 'COPY', 'SWAP', 'PUSH_NULL',
                              'CACHE', 'EXTENDED_ARG', 'BUILD_', 'MAKE_', 'PRECALL', 'KW_NAMES', 'IS_OP', 'UNARY_NOT', 'SEND', 'END_',
                              'RETURN_GENERATOR', 'MAKE_CELL', 'COPY_FREE_VARS', 'NOT_TAKEN', 'TO_BOOL'))}


class Deadlock(BaseException):
    pass


ACTIVE = None       # the Run in progress
_LOCK, _RLOCK = threading.Lock, threading.RLock


class CooperativeLock(object):
    """lock of the code under test: a thread that has to wait hands over to another one instead of blocking"""

    def __init__(self, inner):
        self.inner = inner

    def acquire(self, blocking=True, timeout=-1):
        while not self.inner.acquire(False):
            if not blocking:
                return False
            me = ACTIVE.threads.get(threading.get_ident()) if ACTIVE is not None else None
            if me is None:
                return self.inner.acquire(blocking, timeout)
            ACTIVE.block(me)
        if ACTIVE is not None:
            ACTIVE.fruitless = 0
        return True

    def release(self):
        self.inner.release()

    def locked(self):
        return self.inner.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


def _factory(original):
    def create():
        lock = original()
        return CooperativeLock(lock) if sys._getframe(1).f_code.co_filename.startswith(PREFIX) else lock
    return create


def watch_locks():
    """before the library is imported"""
    threading.Lock, threading.RLock = _factory(_LOCK), _factory(_RLOCK)


CODES = []


def find_codes():
    """all code objects of the code under test that functions of this process lead to"""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen = {}
    while todo:
        code = todo.pop()
        if code.co_filename.startswith(PREFIX) and id(code) not in seen:
            seen[id(code)] = code
            todo.extend(c for c in code.co_consts if isinstance(c, types.CodeType))
    CODES[:] = seen.values()


def _at(code, where, value=None):
    run = ACTIVE
    if run is not None:
        me = run.threads.get(threading.get_ident())
        if me is not None:
            run.point(me, (code, where))


def _at_instruction(code, where):
    if code.co_code[where] in _LOCAL:
        return sys.monitoring.DISABLE
    _at(code, where)


_instrumented = None


def instrument(points):
    """makes the code under test report its yield points: 'calls', lines (False) or byte-codes (True); children inherit it"""
    global _instrumented
    if _instrumented == [points]:
        return
    m = sys.monitoring
    if _instrumented is None:
        m.use_tool_id(TOOL, 'schedules')
        for event in (m.events.LINE, m.events.PY_START, m.events.PY_RESUME, m.events.PY_RETURN):
            m.register_callback(TOOL, event, _at)
        m.register_callback(TOOL, m.events.INSTRUCTION, _at_instruction)
    _instrumented = [points]
    events = m.events.PY_START | m.events.PY_RESUME | m.events.PY_RETURN if points == 'calls' else m.events.INSTRUCTION if points else m.events.LINE
    for code in CODES:
        m.set_local_events(TOOL, code, events)


class Run(object):
    def __init__(self, functions, first, preemptions, opcodes=False, visits=VISITS):
        self.functions, self.plan, self.opcodes, self.visits = functions, {k: t for k, t in preemptions}, opcodes, visits
        self.current, self.steps, self.beats = first, 0, 0
        self.condition = threading.Condition()
        n = len(functions)
        self.finished, self.blocked = [False] * n, [False] * n
        self.results, self.seen = [None] * n, [{} for _ in range(n)]
        self.who, self.finish = [], [0] * n
        self.stalls = self.fruitless = 0
        self.threads = {}

    # called in the running thread, before a line is executed
    def point(self, me, key):
        self.beats += 1
        self.fruitless = 0
        if self.current != me:      # was blocked on a real lock and other threads were let in
            self.wait(me)
        seen = self.seen[me]
        n = seen.get(key, 0) + 1
        seen[key] = n
        if n > self.visits:
            return
        step = self.steps
        self.steps = step + 1
        self.who.append(me)
        target = self.plan.get(step)
        if target is not None and target != me and not self.finished[target]:
            with self.condition:
                self.current = target
                self.condition.notify_all()
            self.wait(me)

    def block(self, me):
        with self.condition:
            self.beats += 1
            self.stalls += 1
            self.fruitless += 1
            if self.fruitless > 20 * len(self.functions):
                raise Deadlock('every thread waits for a lock')
            self.blocked[me] = True
            self.next(me)
            self.condition.notify_all()
            while self.current != me:
                self.condition.wait()
            self.blocked[me] = False

    def wait(self, me):
        with self.condition:
            self.blocked[me] = False
            while self.current != me:
                self.condition.wait()

    def body(self, me):
        self.wait(me)
        self.threads[threading.get_ident()] = me
        try:
            result = ['ok', self.functions[me]()]
        except BaseException as e:
            result = ['err', '%s: %s' % (type(e).__name__, e)]
        del self.threads[threading.get_ident()]
        with self.condition:
            self.results[me] = result
            self.finished[me] = True
            self.finish[me] = self.steps
            self.beats += 1
            if self.current == me:
                self.next(me)
            self.condition.notify_all()

    def next(self, me):
        rest = [t for t in range(len(self.functions)) if not self.finished[t] and t != me]
        free = [t for t in rest if not self.blocked[t]] or rest
        if free:
            self.current = free[0]

    def run(self):
        global ACTIVE
        ACTIVE = self
        instrument(self.opcodes)
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        for t in threads:
            t.start()
        with self.condition:
            beats, idle = -1, 0
            while not all(self.finished):
                if self.condition.wait(STALL) or beats != self.beats:
                    beats, idle = self.beats, 0
                    continue
                # no progress: the running thread waits for something that another thread holds
                self.stalls += 1
                idle += 1
                if idle > 20:
                    return False
                self.blocked[self.current] = True
                self.next(self.current)
                self.condition.notify_all()
        ACTIVE = None
        return True
