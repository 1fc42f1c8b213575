"""Deterministic scheduler: runs real Python threads one at a time and owns every scheduling decision.

`install()` must run before the code under test is imported.  It replaces the primitives that all of
Python's threading/queue/concurrent.futures layers are built on, so code under test needs no hooks.
Threads that are not controlled (the driver) see plain, uncontended locks.
"""
import _thread
import random as _random
import sys
import threading
import time as _time
import types

_get_ident = _thread.get_ident
_raw_lock = _thread.allocate_lock
_raw_start = _thread.start_new_thread
_raw_sentinel = threading._set_sentinel
_real_sleep = _time.sleep
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf = _time.perf_counter

S = None  # the active scheduler, or None

EPOCH = 1_000_000_000.0


class SchedAbort(BaseException):
    """Raised inside controlled threads to unwind them when an execution is abandoned."""


class Hang(Exception):
    """A controlled thread ran for too long without reaching any scheduling point."""


def cur():
    s = S
    if s is not None:
        t = s.current
        if t is not None and t.ident == _get_ident():
            return t
    return None


# ------------------------------------------------------------------------------------------ primitives
class CLock:
    __slots__ = ("_locked", "_fresh", "__weakref__")

    def __init__(self):
        self._locked = False
        self._fresh = _get_ident()

    def acquire(self, blocking=True, timeout=-1):
        t = cur()
        if t is None:
            return self._raw_acquire(blocking, timeout)
        s = S
        fresh, self._fresh = self._fresh, 0
        if fresh == t.ident and not self._locked:
            # The first acquisition of a lock by its creator cannot be contended.
            if s.aborting:
                raise SchedAbort
            self._locked = True
            return True
        s.point(t, "L")
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not s.block(t, self, deadline):
                return False
        self._locked = True
        return True

    def _raw_acquire(self, blocking, timeout):
        self._fresh = 0
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else _real_monotonic() + timeout
        while self._locked:
            if end is not None and _real_monotonic() >= end:
                return False
            _real_sleep(0.0005)
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            if S is not None and S.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def ready(self):
        return not self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class CRLock:
    __slots__ = ("_lock", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._lock = CLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        # As in CPython, an interrupt does not keep this from taking the lock: it is raised afterwards.
        interrupt = None
        while True:
            try:
                self._lock.acquire()
                break
            except SchedAbort:
                raise
            except BaseException as e:
                interrupt = e
        self._count, self._owner = st
        if interrupt is not None:
            raise interrupt

    def _at_fork_reinit(self):
        self.__init__()


class Pred:
    """A wait object whose readiness is an arbitrary predicate (used by harness code)."""

    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def ready(self):
        return self.fn()


class Never:
    __slots__ = ()

    def ready(self):
        return False


NEVER = Never()


# ------------------------------------------------------------------------------------------ OS thread pool
class _PoolThread:
    __slots__ = ("lock", "job", "ident")

    def __init__(self):
        self.lock = _raw_lock()
        self.lock.acquire()
        self.job = None
        self.ident = None
        ready = _raw_lock()
        ready.acquire()
        _raw_start(self._loop, (ready,))
        ready.acquire()

    def _loop(self, ready):
        self.ident = _get_ident()
        ready.release()
        while True:
            self.lock.acquire()
            job, self.job = self.job, None
            job()
            del job


_pool = []


# ------------------------------------------------------------------------------------------ scheduler
RUN, BLOCKED, DONE = 0, 1, 2


class T:
    __slots__ = (
        "id", "ident", "pool", "status", "wait", "deadline", "timed_out", "pend_exc", "sentinel", "fn", "args",
        "kwargs", "is_main", "exc", "idle_count", "started", "user",
    )


class Scheduler:
    def __init__(self, chooser, *, trace=None, max_steps=200_000, wall=30.0, time_jump=True):
        self.chooser = chooser
        self.threads = []
        self.current = None
        self.aborting = False
        self.steps = 0
        self.max_steps = max_steps
        self.wall = wall
        self.now = 0.0
        self.switches = 0
        self.trace = trace
        self.deadlock = False
        self.livelock = False
        self.live_at_return = None
        self.leftover = []
        self.finished = _raw_lock()
        self.finished.acquire()
        self.result = None
        self.error = None
        self.main_done = False
        self.start_hook = None
        self.on_block = None
        self.on_quiet = None
        self.on_op = None
        self.hold = None
        self.fail_start = None
        self.spread = None
        self.uncaught = []
        self.limit_reason = None
        self.main = None

    # -- thread management
    def _spawn(self, fn, args, kwargs, is_main=False):
        t = T()
        t.id = len(self.threads)
        t.status = RUN
        t.wait = None
        t.deadline = None
        t.timed_out = False
        t.pend_exc = None
        t.sentinel = None
        t.fn, t.args, t.kwargs = fn, args, kwargs
        t.is_main = is_main
        t.exc = None
        t.idle_count = 0
        t.started = False
        t.user = None
        p = _pool.pop() if _pool else _PoolThread()
        t.pool = p
        t.ident = p.ident
        self.threads.append(t)
        p.job = lambda: self._body(t)
        return t

    def _body(self, t):
        # Runs on the pool thread after it got the baton for the first time.
        t.started = True
        try:
            try:
                if self.aborting:
                    raise SchedAbort
                r = t.fn(*t.args, **t.kwargs)
                if t.is_main:
                    self.result = r
                del r
            except SchedAbort:
                pass
            except BaseException as e:
                if t.is_main:
                    self.error = e
                else:
                    self.uncaught.append(repr(e))
                del e
        finally:
            pass
        t.fn = t.args = t.kwargs = None
        self._exit(t)

    def _exit(self, t):
        t.status = DONE
        if t.sentinel is not None and t.sentinel._locked:
            t.sentinel._locked = False
        if t.is_main:
            self.main_done = True
            self.live_at_return = [u.id for u in self.threads if u.status != DONE]
        p = t.pool
        t.pool = None
        _pool.append(p)
        self._dispatch_next(t)

    def _dispatch_next(self, t):
        """t cannot continue: give the baton to another thread or finish the execution."""
        nxt = self._pick(t)
        if nxt is None:
            self.current = None
            self.finished.release()
            return None
        self._give(nxt)
        return nxt

    def _give(self, nxt):
        self.switches += 1
        self.current = nxt
        nxt.pool.lock.release()

    # -- enabledness
    def _enabled(self, u):
        st = u.status
        if st == RUN:
            return True
        if st == DONE:
            return False
        if u.pend_exc is not None or self.aborting or u.wait.ready():
            return True
        return u.deadline is not None and u.deadline <= self.now

    def _others(self, t):
        n = len(self.threads)
        out = []
        k = t.id + 1
        for i in range(n):
            u = self.threads[(k + i) % n]
            if u is not t and u.status != DONE and self._enabled(u):
                out.append(u)
        return out

    def _pick(self, t):
        """Choose the next thread when t cannot run (blocked or done)."""
        while True:
            en = self._others(t)
            if t.status == BLOCKED and self._enabled(t):
                en.insert(0, t)
            if en:
                if len(en) == 1 or self.aborting:
                    return en[0]
                if self.hold is not None and self.hold in en:
                    return self.hold
                return en[self.chooser.choose(len(en), "B")]
            if self.on_quiet is not None and not self.main_done and not self.aborting and self.on_quiet():
                continue
            # Nothing enabled: let virtual time pass, else deadlock.
            dl = [u.deadline for u in self.threads if u.status == BLOCKED and u.deadline is not None]
            if dl and not self.main_done:
                self.now = max(self.now, min(dl))
                self.steps += 1
                if self.steps > self.max_steps:
                    self._limit("steps")
                continue
            blocked = [u for u in self.threads if u.status == BLOCKED]
            if blocked:
                if not self.main_done and not self.aborting:
                    self.deadlock = True
                if not self.aborting:
                    self.leftover = [u.id for u in blocked]
                    self._abort()
                    continue
            return None

    def _abort(self):
        self.aborting = True

    def _limit(self, why):
        if not self.aborting:
            self.livelock = True
            self.limit_reason = why
            self._abort()

    # -- operations of the running thread
    def point(self, t, label):
        if self.aborting:
            raise SchedAbort
        self.steps += 1
        if self.steps > self.max_steps:
            self._limit("steps")
            raise SchedAbort
        c = self.chooser
        if self.hold is not None and self.hold is not t and self.hold.status != DONE and self._enabled(self.hold):
            self._give(self.hold)
            t.pool.lock.acquire()
            if self.aborting:
                raise SchedAbort
        elif c.preempt_left() and self.hold is not t:
            en = self._others(t)
            if en:
                i = c.choose(len(en) + 1, "P")
                if i:
                    self._give(en[i - 1])
                    t.pool.lock.acquire()
                    if self.aborting:
                        raise SchedAbort
        if t.pend_exc is not None:
            e, t.pend_exc = t.pend_exc, None
            raise e

    def op_point(self, t):
        """A possible preemption before one bytecode instruction."""
        if self.chooser.preempt_left():
            self.point(t, "O")

    def yield_(self, t):
        """A voluntary switch: every enabled thread (including t) is an equally cheap choice."""
        if self.aborting:
            raise SchedAbort
        self.steps += 1
        en = self._others(t)
        if en:
            h = self.hold
            i = en.index(h) + 1 if h is not None and h in en else self.chooser.choose(len(en) + 1, "Y")
            if i:
                self._give(en[i - 1])
                t.pool.lock.acquire()
                if self.aborting:
                    raise SchedAbort
        if t.pend_exc is not None:
            e, t.pend_exc = t.pend_exc, None
            raise e

    def deliver(self, t, target, exc, hold=True):
        """From running thread t: raise exc in the blocked thread target, which (with hold) from now on
        runs whenever it can."""
        target.pend_exc = exc
        if hold:
            self.hold = target
            self._give(target)
            t.pool.lock.acquire()
            if self.aborting:
                raise SchedAbort

    def block(self, t, wait, deadline=None):
        """Block until wait.ready(); False on timeout."""
        if self.aborting:
            raise SchedAbort
        self.steps += 1
        if self.steps > self.max_steps:
            self._limit("steps")
            raise SchedAbort
        t.status = BLOCKED
        t.wait = wait
        t.deadline = deadline
        t.idle_count += 1
        if self.on_block is not None:
            self.on_block(t)
        nxt = self._pick(t)
        if nxt is not t:
            if nxt is None:
                # cannot happen while t is BLOCKED unless aborting finished everything else
                t.status = RUN
                raise SchedAbort
            self._give(nxt)
            t.pool.lock.acquire()
        t.status = RUN
        t.wait = None
        if self.aborting:
            raise SchedAbort
        if t.pend_exc is not None:
            e, t.pend_exc = t.pend_exc, None
            t.deadline = None
            raise e
        if not wait.ready():
            # woken by deadline
            t.deadline = None
            return False
        t.deadline = None
        return True

    def wait_until(self, fn, deadline=None):
        t = cur()
        if fn():
            return True
        return self.block(t, Pred(fn), deadline)

    def sleep(self, d):
        t = cur()
        self.block(t, NEVER, self.now + max(0.0, d))

    def advance(self, d):
        self.now += d

    def choose(self, n, kind="E"):
        return self.chooser.choose(n, kind)

    # -- driver
    def run_body(self, body):
        return self.run(body(self))

    def run(self, fn, *args, **kwargs):
        global S
        assert S is None
        S = self
        try:
            self.main = t = self._spawn(fn, args, kwargs, is_main=True)
            self._give(t)
            if not self.finished.acquire(True, self.wall):
                raise Hang(f"no scheduling point reached for {self.wall}s")
        finally:
            S = None
        return self


# ------------------------------------------------------------------------------------------ patches
def c_start_new_thread(fn, args=(), kwargs=None):
    t = cur()
    if t is None:
        return _raw_start(fn, args, kwargs or {})
    s = S
    if s.aborting:
        raise SchedAbort
    if s.fail_start is not None and s.fail_start():
        raise RuntimeError("can't start new thread")
    u = s._spawn(fn, args, kwargs or {})
    return u.ident


def c_set_sentinel():
    t = cur()
    if t is None:
        return _raw_sentinel()
    lock = CLock()
    t.sentinel = lock
    return lock


def c_sleep(d):
    if cur() is None:
        return _real_sleep(d)
    S.sleep(d)


def _clock(real, base):
    def f():
        if cur() is None:
            return real()
        return base + S.now

    return f


c_time = _clock(_real_time, EPOCH)
c_monotonic = _clock(_real_monotonic, 1000.0)
c_perf = _clock(_real_perf, 1000.0)

_real_randbelow = _random.Random._randbelow
_real_random = _random.random


def _c_randbelow(self, n):
    if cur() is None:
        return _real_randbelow(self, n)
    if not n:
        raise ValueError("empty range")
    if S.spread is not None:  # runs that are not explored: a fixed sequence that covers the range
        S.spread = (S.spread * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (S.spread >> 33) % n
    return S.chooser.choose(n, "R") if n > 1 else 0


def _c_random():
    if cur() is None:
        return _real_random()
    return (0.0, 0.5, 0.999)[S.chooser.choose(3, "R")]


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import queue

    real_hook = threading.excepthook

    def hook(args):
        s = S
        if s is None or cur() is None:
            return real_hook(args)
        if not s.aborting:
            s.uncaught.append(f"{args.exc_type.__name__}: {args.exc_value}")

    threading.excepthook = hook

    threading.Lock = CLock
    threading._allocate_lock = CLock
    threading._CRLock = CRLock
    threading._start_new_thread = c_start_new_thread
    threading._set_sentinel = c_set_sentinel
    threading._time = c_monotonic
    _time.sleep = c_sleep
    _time.time = c_time
    _time.monotonic = c_monotonic
    _time.perf_counter = c_perf
    queue.time = c_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    _random.Random._randbelow = _c_randbelow
    _random.random = _c_random


# ------------------------------------------------------------------------------------------ bytecode points
import dis  # noqa: E402



def switch_offsets(co):
    """Offsets at which CPython 3.12 can really switch threads (or run a signal handler) inside this code object.

    The eval breaker is polled when a function is entered or resumed (RESUME), on backward jumps, and after calls;
    the scheduling point is placed on the instruction that follows (for a jump: on its target; what the jump itself
    would raise need not be covered by the exception handlers around the loop).
    """
    out = set()
    prev = None
    for i in dis.get_instructions(co):
        if prev is not None and (prev == "RESUME" or prev.startswith("CALL")) and not prev.startswith("CALL_INTRINSIC"):
            out.add(i.offset)
        if i.opname.startswith("JUMP_BACKWARD") and i.opname != "JUMP_BACKWARD_NO_INTERRUPT":
            out.add(i.argval)
        prev = i.opname
    return frozenset(out)


def _codes(prefix):
    """Every code object of the modules loaded from under `prefix`."""
    seen = set()
    out = []

    def code(co):
        if co in seen or not co.co_filename.startswith(prefix):
            return
        seen.add(co)
        out.append(co)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                code(c)

    def obj(o, depth=0):
        if depth > 4:
            return
        for _ in range(5):
            co = getattr(o, "__code__", None)
            if isinstance(co, types.CodeType):
                code(co)
            w = getattr(o, "__wrapped__", None) or getattr(o, "__func__", None)
            if w is None:
                break
            o = w
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    obj(f, depth + 1)
        if isinstance(o, type):
            for v in vars(o).values():
                obj(v, depth + 1)

    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if f.startswith(prefix):
            for v in list(vars(m).values()):
                obj(v)
    return out


class OpTrace:
    """Scheduling point at every real thread-switch opportunity in files under `prefix` (for the selected threads).

    Uses sys.monitoring INSTRUCTION events, so only the instructions of interest cost anything.
    """

    TOOL = 3

    def __init__(self, prefix, threads="workers", files=None):
        self.sel = threads
        self.count = 0
        self.points = {}
        for co in _codes(prefix):
            if files is None or any(co.co_filename.endswith(f) for f in files):
                self.points[co] = switch_offsets(co)
        self.on = False

    def start(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, "mc")
        m.register_callback(self.TOOL, m.events.INSTRUCTION, self._event)
        for co in self.points:
            m.set_local_events(self.TOOL, co, m.events.INSTRUCTION)
        m.restart_events()
        self.on = True

    def stop(self):
        m = sys.monitoring
        for co in self.points:
            m.set_local_events(self.TOOL, co, 0)
        m.register_callback(self.TOOL, m.events.INSTRUCTION, None)
        m.free_tool_id(self.TOOL)
        self.on = False

    def _event(self, code, offset):
        if offset not in self.points[code]:
            return sys.monitoring.DISABLE
        s = S
        if s is None:
            return None
        t = s.current
        if t is None or t.ident != _get_ident() or s.aborting:
            return None
        if self.sel == ("workers" if t.is_main else "main"):
            return None
        self.count += 1
        s.op_point(t)
        if s.on_op is not None:
            s.on_op(t)
        return None


# ------------------------------------------------------------------------------------------ choosing / exploring
class Chooser:
    """Replays `prefix`, then takes alternative 0.  Records every choice that has alternatives within budget.

    Budgets: P = preemptions, R = random-module deviations, E = environment deviations, B = deviations at blocking
    points, Y = deviations at voluntary yields inside call bodies, T = total of all but Y (None = unlimited).
    """

    __slots__ = ("prefix", "trace", "pos", "budget", "used", "diverged", "total", "spent")

    def __init__(self, prefix, budget):
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.budget = budget
        self.used = {"P": 0, "R": 0, "E": 0, "B": 0, "Y": 0}
        self.diverged = False
        self.total = budget.get("T")
        self.spent = 0

    def preempt_left(self):
        if self.used["P"] >= self.budget["P"]:
            return False
        return self.total is None or self.spent < self.total

    def choose(self, n, kind):
        if n < 2:
            return 0
        b = self.budget.get(kind)
        used = self.used
        if b is not None and used[kind] >= b:
            return 0
        if self.total is not None and kind != "Y" and self.spent >= self.total:
            return 0
        i = self.pos
        self.pos = i + 1
        if i < len(self.prefix):
            pn, c = self.prefix[i]
            if pn != n:
                self.diverged = True
                if c >= n:
                    c = n - 1
        else:
            c = 0
        self.trace.append((n, c))
        if c:
            used[kind] += 1
            if kind != "Y":
                self.spent += 1
        return c


def successor(trace):
    i = len(trace) - 1
    while i >= 0 and trace[i][1] + 1 >= trace[i][0]:
        i -= 1
    if i < 0:
        return None
    return list(trace[:i]) + [(trace[i][0], trace[i][1] + 1)]


class Stats:
    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.switches = 0
        self.choice_points = 0
        self.diverged = 0
        self.deadlocks = 0
        self.livelocks = 0
        self.capped = 0
        self.max_steps = 0
        self.outcomes = set()

    def merge_dict(self):
        d = dict(self.__dict__)
        d["outcomes"] = len(self.outcomes)
        return d


def explore(body, budget, *, stats=None, cap=None, trace=None, max_steps=20_000, wall=30.0, prefix=()):
    """Depth-first enumeration of every schedule of `body` within `budget`.

    `body(sched)` returns main_fn; for each execution yields (sched, chooser) once it is complete.
    """
    stats = stats or Stats()
    if trace is not None:
        trace.start()
    try:
        # Warm up once so that caches filled by a first execution cannot make later ones diverge.
        Scheduler(Chooser([], ZERO), trace=trace, max_steps=max_steps, wall=wall).run_body(body)
        yield from _explore(body, budget, stats, cap, trace, max_steps, wall, prefix)
    finally:
        if trace is not None:
            trace.stop()


ZERO = {"P": 0, "R": 0, "E": 0, "B": 0, "Y": 0}


def _explore(body, budget, stats, cap, trace, max_steps, wall, prefix):
    pre = list(prefix)
    n = 0
    while True:
        ch = Chooser(pre, budget)
        s = Scheduler(ch, trace=trace, max_steps=max_steps, wall=wall)
        main = body(s)
        s.run(main)
        n += 1
        stats.executions += 1
        stats.steps += s.steps
        stats.switches += s.switches
        stats.choice_points += len(ch.trace)
        if s.steps > stats.max_steps:
            stats.max_steps = s.steps
        if ch.diverged:
            stats.diverged += 1
        if s.deadlock:
            stats.deadlocks += 1
        if s.livelock:
            stats.livelocks += 1
        yield s, ch
        pre = successor(ch.trace)
        if pre is None:
            return
        if cap is not None and n >= cap:
            stats.capped += 1
            return


def run_once(body, choices=(), budget=None, **kw):
    budget = budget or ZERO
    ch = Chooser([tuple(c) for c in choices], budget)
    s = Scheduler(ch, **kw)
    tr = kw.get("trace")
    if tr is not None:
        tr.start()
    try:
        s.run(body(s))
    finally:
        if tr is not None:
            tr.stop()
    return s, ch
