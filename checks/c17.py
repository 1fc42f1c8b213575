"""C17: Ctrl-C during a run stops new work, waits for in-flight calls and cleans up."""
import os
import sys

from checks import c15
from checks.common import MID, SCHEDS, SMALL, big_specs
from checks.stored import R as REGS
from checks.stored import states
from mc import harness as H
from mc import plans, sched, worlds
from mc.core import R

LEVEL = "model_checking"
ASSUMPTIONS = [
    "KeyboardInterrupt reaches the calling thread while it waits, or at a point of uberjob's own code where CPython 3.12 polls for signals; "
    "signal points inside the standard library's Condition and Queue code are left out (CPython's own non-atomicity)",
    "'no further call is started' is judged when the interrupted thread is scheduled promptly; a worker that had already taken its next call "
    "when the interrupt arrived may start it",
]
START = ("s", "r", "w", "m")
END = {"e": "s", "R": "r", "W": "w", "M": "m"}


class KCase(c15.PCase):
    """A run whose calling thread gets KeyboardInterrupt: at the k-th start of a call ('s'), the k-th time a call is half done ('m'), or, for
    k = 0, at any one point of its own code while a call is executing (a choice of the explorer)."""

    def __init__(self, spec, state=(), *, k=1, where="s", prompt=True, obs="rec", slow=False, **kw):
        super().__init__(spec, state, how="one", **kw)
        self.k, self.where, self.prompt, self.obs = k, where, prompt, obs
        self.slow = slow  # calls in flight when the interrupt arrives go on for an hour
        self.args.update(k=k, where=where, prompt=prompt, obs=obs, slow=slow)
        self.hot = False

    def make_progress(self):
        p = super().make_progress()
        if self.obs == "none":
            return None
        if self.obs == "console":
            import uberjob
            return (uberjob.progress.console_progress, p, uberjob.progress.html_progress(lambda b: None))
        return p

    def reset(self):
        super().reset()
        w = self.world
        self.ki = None
        self.n = 0
        self.at = None
        self.must_not = {}
        w.hook = (lambda kind, j, a, kw: self.event("s")) if self.where == "s" and self.k else None
        w.mid_hook = (lambda kind, j: self.mid()) if self.slow or (self.where == "m" and self.k) else None

    def flying(self):
        """{thread id: (kind, node)} of the calls executing now."""
        fly = {}
        for e in self.world.log:
            if e[0] in START and len(e) == 3:
                fly[e[0], e[1]] = e[2]
            elif e[0] in END and len(e) == 2:
                fly.pop((END[e[0]], e[1]), None)
            elif e[0] in ("xs", "xr", "xw", "xm"):
                fly.pop((e[0][1], e[1]), None)
        return {t: ev for ev, t in fly.items()}

    def mark(self, s):
        """The interrupt arrives now: which threads may not start another call?"""
        fly = self.flying()
        self.at = len(self.world.log)
        self.fly = fly
        frames = sys._current_frames()
        for u in s.threads:
            if u.is_main or u.status == sched.DONE:
                continue
            if u.id in fly:
                self.must_not[u.id] = fly[u.id]
            elif u.status == sched.BLOCKED and in_queue_get(frames.get(u.ident)):
                self.must_not[u.id] = None
        self.others = {u.id for u in s.threads} - set(self.must_not)
        self.ki = KeyboardInterrupt()
        self.world.log.append(("KI",))

    def mid(self):
        if self.where == "m" and self.k:
            self.event("m")
        if self.slow and self.ki is not None and sched.cur() is not None:
            sched.S.sleep(3600)

    def event(self, kind):
        s = sched.S
        t = sched.cur()
        if s is None or t is None or t.is_main or self.ki is not None:
            return
        m = s.main
        if m is None or m.status != sched.BLOCKED or m.wait.ready():
            return
        self.n += 1
        if self.n == self.k:
            self.hot = True
            self.mark(s)
            s.deliver(t, m, self.ki, hold=self.prompt)

    def op(self, t):
        s = sched.S
        if self.ki is None and t.is_main and self.flying() and s.choose(2, "E"):
            self.hot = True
            self.mark(s)
            if self.prompt:
                s.hold = t
            raise self.ki

    def body(self, s):
        m = super().body(s)
        if self.k == 0:
            s.on_op = self.op
        return m

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=20_000):
        self.hot = False
        for x in super().explore(budget, stats=stats, cap=cap, trace=trace, prefix=prefix, max_steps=max_steps):
            yield x
            if self.k and not self.hot:  # fewer than k such moments
                return


def in_queue_get(f):
    """The thread is waiting for its next item (so it has not looked at the stop flag yet)."""
    while f is not None:
        if f.f_code.co_name == "get" and f.f_code.co_filename.endswith("queue.py"):
            return True
        f = f.f_back
    return False


def starts_after(c):
    """Calls started after the interrupt, without further attempts of a call that was already executing."""
    for e in c.world.log[c.at:]:
        if e[0] in START and len(e) == 3 and c.fly.get(e[2]) != (e[0], e[1]):
            yield e


def oracle(c, s):
    w = c.world
    if c.ki is None:
        return None
    if s.deadlock:
        return f"after KeyboardInterrupt run hangs: threads {s.leftover} wait for ever"
    if s.livelock:
        return "after KeyboardInterrupt run does not end"
    if c.error is not c.ki:
        return f"KeyboardInterrupt does not propagate: run {'returned' if c.error is None else 'raised ' + repr(c.error)}"
    if s.live_at_return:
        return f"threads {s.live_at_return} created by run are still alive when it raises KeyboardInterrupt"
    done = w.log.index(("raise",))
    if any(e[0] in START or e[0] in END for e in w.log[done:]):
        return f"calls still executing when run raises: {w.log[done:]}"
    ends = {(END[e[0]], e[1]) for e in w.log[c.at:] if len(e) == 2 and e[0] in END}
    fails = {(e[0][1], e[1]) for e in w.log[c.at:] if e[0] in ("xs", "xr", "xw", "xm")}
    cut = set(c.fly.values()) - ends - fails
    if cut:
        return f"calls executing when KeyboardInterrupt arrived did not run to completion: {sorted(cut)}"
    for m in c.members:
        if m.log.count(("enter",)) != 1 or m.log.count(("exit",)) != 1 or m.log[-1] != ("exit",):
            return f"the observer saw {m.log[:1]} ... {m.log[-2:]}; it was to be entered and exited once"
    if c.prompt:
        extra = {}
        for e in starts_after(c):
            if e[2] in c.must_not:
                what = c.must_not[e[2]]
                return (f"call {e[:2]} was started after KeyboardInterrupt by a worker that was "
                        f"{'executing ' + repr(what) if what else 'waiting for work'}")
            extra[e[2]] = extra.get(e[2], 0) + 1
            if extra[e[2]] > 1 and not (e[0], e[1]) in fails:
                return f"worker {e[2]} started {extra[e[2]]} further calls after KeyboardInterrupt"
    if w.stores:
        return repair(c)
    return None


def repair(c):
    w, spec = c.world, c.spec
    written = {e[1] for e in w.log if e[0] == "W" and len(e) == 2}
    log0 = w.log
    out = ("list", tuple(range(len(spec[0]))))
    ys = "y" in spec[0]
    w.points, w.hook, w.mid_hook, w.cut = False, None, None, None
    fail, w.fail = w.fail, {}
    src = {j: w.stores[j].val for j, k in enumerate(spec[0]) if k in worlds.SOURCES}
    try:
        w.reset_run()
        res, err, _ = H.solo(lambda: w.run(out))
        if err is not None:
            return f"the next run fails: {err!r} from {err.__cause__!r}"
        sc = worlds.scratch(spec, src)
        if worlds.strip(res) != [sc[j] for j in out[1]]:
            return f"the next run returns {res!r}; from scratch {sc}"
        for j, k in enumerate(spec[0]):
            if k in worlds.STORED and w.stores[j].val != sc[j]:
                return f"after the next run store {j} holds {w.stores[j].val!r}; from scratch {sc[j]!r}"
        again = {e[1] for e in w.log if len(e) == 3 and e[0] in ("w", "s") and spec[0][e[1]] in worlds.STORED} & written
        if again and not ys:
            return f"the next run recomputed {sorted(again)}, completely written before the interrupt"
    finally:
        w.points, w.fail = True, fail
        if c.args.get("mpoints"):
            w.points = "m"
        w.log = log0
    return None


def seen(c):
    return tuple(e[:2] for e in c.log if e[0] != "P")


def run_task(task):
    old = sys.stdout
    sys.stdout = open(os.devnull, "w", encoding="utf-8")
    try:
        return H.run_cases(task, oracle, make=KCase, seen=seen)
    finally:
        sys.stdout.close()
        sys.stdout = old


def replay(r, v):
    H.replay_case(r, v, oracle, KCase)


coverage = H.coverage


def allp(spec):
    return ("list", tuple(range(len(spec[0]))))


def tasks(tier, seed):
    q = tier == "quick"
    T = []

    def ks(n):
        return [(w, k) for w in "sm" for k in range(1, n + 1)]

    small, full, noprompt, prog, op, failc, slow = [], [], [], [], [], [], []
    for n in SMALL + MID:
        spec = plans.SHAPES[n]
        nc = spec[0].count("c")
        for w, k in ks(nc):
            for W in (1, 2, 3):
                for sc in SCHEDS:
                    full.append(H.kwt(spec=spec, W=W, scheduler=sc, out=allp(spec), k=k, where=w))
            noprompt.append(H.kwt(spec=spec, W=2, out=allp(spec), k=k, where=w, prompt=False))
            slow.append(H.kwt(spec=spec, W=1 + k % 3, out=allp(spec), k=k, where=w, slow=True, obs=("rec", "console")[k % 2]))
            prog.append(H.kwt(spec=spec, W=2, out=allp(spec), k=k, where=w, obs="console"))
            for j in [j for j, x in enumerate(spec[0]) if x == "c"]:
                failc.append(H.kwt(spec=spec, W=2, out=allp(spec), k=k, where=w, fail=((("s", j), None),), max_errors=None, obs="none"))
                failc.append(H.kwt(spec=spec, W=2, out=allp(spec), k=k, where=w, fail=((("s", j), 1),), retry=2))
                failc.append(H.kwt(spec=spec, W=2, out=allp(spec), k=k, where=w, fail=((("s", j), None),), max_errors=0))
        for W in (1, 2):
            op.append(H.kwt(spec=spec, W=W, out=allp(spec), k=0, obs="none"))
            op.append(H.kwt(spec=spec, W=W, out=allp(spec), k=0, obs="rec"))
    reg = []
    for n in ("src1", "chain", "mid", "fork", "join", "diamond", "dsrcs", "dsrc", "slit", "litarg", "unstored", "twosrc", "both", "kw", "deponly"):
        spec = REGS[n]
        nops = 3 * len(spec[0])
        for st in states(spec):
            for mp in (False, True):
                for w, k in ks(nops):
                    for W in (1, 2):
                        reg.append(H.kwt(slow=k % 3 == 0, spec=spec, state=st, W=W, scheduler=SCHEDS[k % 2], out=allp(spec), k=k, where=w, mpoints=mp, obs="none"))
    T += H.chunk(full, (H.B(0, None, r=1, cap=150 if q else 20000),), 24, "full-")
    T += H.chunk(full[::2 if q else 1], (H.B(1, 1, cap=80 if q else 5000),), 16, "pre-")
    T += H.chunk(noprompt, (H.B(1, 1, cap=60 if q else 5000),), 12, "late-")
    T += H.chunk(prog, (H.B(1, 1, cap=40 if q else 3000),), 8, "prog-")
    T += H.chunk(slow, (H.B(0, 2, b=0, cap=40 if q else 3000),), 8, "slow-")
    T += H.chunk(failc, (H.B(0, 2, cap=30 if q else 3000),), 40, "fail-")
    T += H.chunk(reg[::1 if not q else 3], (H.B(0, 2, cap=15 if q else 2000),), 80, "reg-")
    T += H.chunk(op, ((3, 2, 1, 0, 0, "main", 600 if q else 20000),), 4, "op-")
    big = []
    for s in big_specs():
        for W in (2, 4):
            for k in range(1, len(s[0]) + 1, 3 if q else 1):
                big.append(H.kwt(spec=s, W=W, out=("node", len(s[0]) - 1), k=k, where="m", scheduler=SCHEDS[k % 2]))
    T += H.chunk(big, (H.B(0, 1, cap=6 if q else 100),), 16, "big-")
    return T


# ------------------------------------------------------------------ real signals
def free(r, tier, seed):
    """Real SIGINT sent to this process from inside the k-th call, on real threads."""
    import signal
    import threading
    import time

    import uberjob

    signal.signal(signal.SIGINT, signal.default_int_handler)
    main = threading.main_thread().ident
    n0 = threading.active_count()
    n = 0

    def main_names():
        f = sys._current_frames().get(main)
        out = []
        while f is not None:
            out.append((f.f_code.co_name, os.path.basename(f.f_code.co_filename)))
            f = f.f_back
        return out

    Rec, Progress = c15.make_rec()
    patience = [2]
    for name in ("pair", "join", "fork", "diamond", "deep", "vialit", "wjoin"):
        spec = plans.SHAPES[name]
        nc = spec[0].count("c")
        for W in (1, 2, 3):
            for sc in SCHEDS:
                for k in range(1, nc + 1):
                    log = []
                    cnt = [0]
                    lock = threading.Lock()

                    class C:
                        members = []
                        rec_points = False

                        class world:
                            log = []

                    C.members = []

                    def mk(j):
                        def f(*a, **kw):
                            with lock:
                                cnt[0] += 1
                                me = cnt[0]
                                log.append(("s", j))
                            if me == k:
                                end = time.monotonic() + 2
                                while time.monotonic() < end:  # until the calling thread waits
                                    if main_names()[0][1] in ("threading.py", "queue.py"):
                                        break
                                    time.sleep(0.0005)
                                time.sleep(0.001)
                                signal.pthread_kill(main, signal.SIGINT)
                                end = time.monotonic() + patience[0]
                                while time.monotonic() < end:  # until the calling thread waits for its workers
                                    if not any(nm == "join" and fl == "queue.py" for nm, fl in main_names()) and any(
                                            nm == "join" and fl == "threading.py" for nm, fl in main_names()):
                                        break
                                    time.sleep(0.0005)
                                else:
                                    patience[0] = 0.05  # it may never look like that
                                log.append(("K", j, time.monotonic() < end))
                            with lock:
                                log.append(("e", j))
                            return j
                        return f

                    plan, nodes = plans.build(spec, [mk(j) if x == "c" else None for j, x in enumerate(spec[0])])
                    got = None
                    try:
                        uberjob.run(plan, output=nodes, max_workers=W, scheduler=sc, progress=Progress(lambda: Rec(C, "A")))
                    except BaseException as e:
                        got = e
                    n += 1
                    msg = None
                    st = {e[1] for e in log if e[0] == "s"}
                    en = {e[1] for e in log if e[0] == "e"}
                    if not isinstance(got, KeyboardInterrupt):
                        msg = f"run ended with {got!r} instead of KeyboardInterrupt"
                    elif st != en:
                        msg = f"calls {st - en} did not run to completion"
                    elif threading.active_count() > n0:
                        msg = "threads are still alive"
                    elif len(C.members) != 1 or C.members[0].log.count(("exit",)) != 1 or C.members[0].log[-1] != ("exit",):
                        msg = "the observer was not exited once, last"
                    else:
                        i = next((i for i, e in enumerate(log) if e[0] == "K" and e[2]), None)
                        if i is not None and any(e[0] == "s" for e in log[i:]) and W == 1:
                            msg = f"calls started after the interrupt: {log}"
                    if msg:
                        r.violation(f"real SIGINT during call {k} of {name} (W={W}, {sc}): {msg}")
                        return n
    return n
