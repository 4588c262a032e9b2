"""
The thread and fault simulator.

Simulated threads are real threads that only ever run one at a time: a baton is handed
from one to another at points the plan names, counted in interpreter instructions
executed inside the library.  Nothing else (no timing, no OS scheduling) decides who
runs, so a plan is one exactly repeatable execution.  The same instruction counter
places injected exceptions.
"""
import _thread
import dis
import gc
import sys

ALLOC = _thread.allocate_lock
ME = _thread.get_ident

CURRENT = [None]     # the simulation in progress
FAULTS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'RecursionError': RecursionError}


class SimDeadlock(BaseException):
    pass


class SimAbort(BaseException):
    pass


class SimLock(object):
    """A lock owned by the simulated scheduler"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = ME()
        while self.owner is not None:
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            sim = CURRENT[0]
            if sim is None or timeout is not None and timeout >= 0:
                if sim is None:
                    raise SimDeadlock('lock held with no simulated thread to release it')
                return False
            sim.block(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            sim = CURRENT[0]
            if sim is not None:
                sim.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == ME()

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0


class SimRLock(SimLock):
    reentrant = True


# ------------------------------------------------------- instruction counting

MON = sys.monitoring
TOOL = 3
CODES = []
ACTIVE = [None]      # the callable that sees every instruction executed in the library
_HOT = {}


def hot_offsets(code):
    """Offsets of instructions right after a write or a check that others may race with"""
    got = _HOT.get(code)
    if got is None:
        got = set()
        ins = list(dis.get_instructions(code))
        for a, b in zip(ins, ins[1:]):
            if a.opname in ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_SUBSCR', 'DELETE_ATTR',
                            'LIST_APPEND', 'SET_ADD', 'MAP_ADD', 'STORE_DEREF'):
                got.add(b.offset)
            elif a.opname in ('POP_JUMP_IF_TRUE', 'POP_JUMP_IF_FALSE', 'POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE'):
                got.add(b.offset)
            elif a.opname == 'CALL' and rng_skip(a.offset):
                got.add(b.offset)
        _HOT[code] = got
    return got


def rng_skip(offset):
    return offset % 3 == 0


def _event(code, offset):
    fn = ACTIVE[0]
    if fn is not None:
        return fn(code, offset)


def install():
    """Finds all code of the library; to be called after it was imported"""
    import types
    from . import lib
    seen = set()

    def walk(co):
        if co in seen:
            return
        seen.add(co)
        for k in co.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(lib.PKG_DIR):
            walk(o.__code__)
    CODES[:] = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'dst')
    MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)


_ON = [False]


def watch(on):
    if on == _ON[0]:
        return
    if on and not CODES:
        install()
    ev = MON.events.INSTRUCTION if on else 0
    for co in CODES:
        MON.set_local_events(TOOL, co, ev)
    _ON[0] = on


class Thread(object):
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.steps = 0
        self.done = False
        self.waiting = None
        self.baton = ALLOC()
        self.baton.acquire()
        self.result = None
        self.error = None


class Sim(object):
    """
    fns: one callable per simulated thread
    plan: list of [tid, step, target]: when thread tid has executed that many
          instructions, the baton goes to target
    faults: list of [tid, step, name]: the exception is raised in tid at that step
    """

    def __init__(self, fns, plan=(), faults=(), max_steps=3000000):
        self.threads = [Thread(i, fn) for i, fn in enumerate(fns)]
        self.plan = {}
        for tid, step, target in plan:
            self.plan.setdefault((tid, step), target)
        self.faults = dict(((tid, step), name) for tid, step, name in faults)
        self.max_steps = max_steps
        self.total = 0
        self.trail = []          # where the switches happened
        self.fired = []
        self.deadlock = False
        self.aborted = False
        self.cur = None
        self.finished = ALLOC()
        self.finished.acquire()

    # -- running

    def run(self):
        CURRENT[0] = self
        watch(True)
        # a collection closes abandoned generators, of whichever case, and that would be counted
        gc.disable()
        ACTIVE[0] = self._instr
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            self.cur = self.threads[0]
            self.cur.baton.release()
            self.finished.acquire()
        finally:
            ACTIVE[0] = None
            CURRENT[0] = None
            gc.enable()
        return self

    def _main(self, t):
        t.baton.acquire()
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        t.done = True
        nxt = self._runnable()
        if nxt is None:
            for o in self.threads:
                if not o.done:
                    # blocked for ever
                    self.deadlock = True
                    o.waiting = None
                    nxt = o
                    break
        if nxt is None:
            self.finished.release()
        else:
            self.cur = nxt
            nxt.baton.release()

    def _runnable(self, but=None):
        for o in self.threads:
            if o is not but and not o.done and o.waiting is None:
                return o
        return None

    def _switch(self, t, target):
        self.cur = target
        target.baton.release()
        t.baton.acquire()
        if self.deadlock:
            raise SimDeadlock()

    def block(self, lock):
        t = self.cur
        t.waiting = lock
        nxt = self._runnable(t)
        if nxt is None:
            self.deadlock = True
            t.waiting = None
            raise SimDeadlock()
        self.trail.append((t.tid, 'blocked', 0))
        self._switch(t, nxt)

    def unblock(self, lock):
        for o in self.threads:
            if o.waiting is lock:
                o.waiting = None

    # -- what happens at every instruction of the library

    def _instr(self, code, offset):
        t = self.cur
        if t is None:
            return
        t.steps += 1
        n = t.steps
        target = self.plan.get((t.tid, n))
        if target is not None:
            target = self.threads[target]
            if target is not t and not target.done and target.waiting is None:
                self.trail.append((t.tid, code.co_qualname, offset))
                self._switch(t, target)
        if self.faults:
            name = self.faults.get((t.tid, n))
            if name is not None:
                self.fired.append((t.tid, name, code.co_qualname, offset))
                raise FAULTS[name]('injected')
        if n > self.max_steps:
            self.aborted = True
            raise SimAbort()


def run_counted(fn, fault=None, limit=5000000, record_hot=False):
    """
    Runs fn in this thread with the instruction counter.
    fault: None or [step, name].  -> (result, error, steps, fired, hot), hot being lists of
    the steps at which each racy instruction was executed
    """
    n = 0
    fired = []
    sites = {} if record_hot else None
    at, name = fault if fault else (-1, None)

    def instr(code, offset):
        nonlocal n
        n += 1
        if sites is not None and offset in hot_offsets(code):
            got = sites.setdefault((code, offset), [])
            if len(got) < 40:
                got.append(n)
        if n == at:
            fired.append((name, code.co_qualname, offset))
            raise FAULTS[name]('injected')
        if n > limit:
            raise SimAbort()

    result = error = None
    watch(True)
    gc.disable()
    ACTIVE[0] = instr
    try:
        try:
            result = fn()
        finally:
            ACTIVE[0] = None
            gc.enable()
    except BaseException as e:
        if isinstance(e, (SystemExit,)):
            raise
        error = e
    return result, error, n, fired, list(sites.values()) if sites is not None else None


def pick_hot(rng, sites):
    """A step at a racy instruction; rarely executed instructions are as likely as frequent ones"""
    return rng.choice(rng.choice(sites))


def gen_plan(rng, lengths, hots, switches):
    """Random preemption points, biased to follow writes and checks of shared state"""
    n = len(lengths)
    plan = []
    for _ in range(switches):
        tid = rng.randrange(n)
        if lengths[tid] < 2:
            continue
        if hots[tid] and rng.random() < 0.75:
            step = pick_hot(rng, hots[tid]) + rng.choice([0, 0, 0, 1, 2, -1])
        else:
            step = rng.randint(1, lengths[tid])
        target = rng.choice([t for t in range(n) if t != tid])
        plan.append([tid, max(1, step), target])
    return plan
