"""C16: intermediate results are released as soon as their last consumer has finished."""
import gc
import weakref

from checks.common import MID, SMALL, big_specs, calls, shape_cases, specs
from checks.stored import R as REGS
from mc import boot, harness as H
from mc import plans, sched, worlds
from mc.core import R

LEVEL = "model_checking"
ASSUMPTIONS = [
    "a consumer counts as finished once its worker has gone on to another call, or once no thread can move except the calls in flight",
    "the arguments of the call whose exception run raises may stay referenced by that exception's traceback",
    "calls and stores of the harness keep no reference to results; failed consumers that are never executed do not count as finished",
]


class Tok:
    """The result of one call: weakly referenceable, and nothing of the harness refers to it."""

    __slots__ = ("name", "__weakref__")

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Tok{self.name}"


class Many(list):
    """A producer's result that is unpacked by the plan."""

    __slots__ = ("__weakref__",)


def store_class():
    import uberjob

    class TStore(uberjob.ValueStore):
        def __init__(self, c, j, t):
            self.c, self.j, self.t = c, j, t

        def read(self):
            c = self.c
            c.start(("r", self.j))
            v = Tok(("r", self.j))
            c.made(("r", self.j), v)
            return v

        def write(self, value):
            self.c.start(("w", self.j))
            self.c.end(("w", self.j))

        def get_modified_time(self):
            return worlds.stamp(self.t)

    return TStore


class LCase:
    """kinds c, s (stored call), o (source), l, p (call returning a pair that is unpacked); edges a, k, d, g (inside a list), 0/1 (one half of
    an unpacked pair)."""

    def __init__(self, spec, *, W=1, scheduler=None, out=("none",), state=(), fails=(), max_errors=0, retry=None, gate=False, order=0,
                 progress=None, kind="E", dep_rev=False):
        import uberjob

        self.spec, self.W, self.scheduler, self.out, self.fails = spec, W, scheduler, out, dict(fails)
        self.kind, self.use_gate, self.progress = kind, gate, progress
        self.kw = dict(max_workers=W, scheduler=scheduler, max_errors=max_errors, retry=retry)
        self.args = dict(spec=spec, W=W, scheduler=scheduler, out=out, state=state, fails=fails, max_errors=max_errors, retry=retry, gate=gate,
                         order=order, progress=progress, kind=kind)
        self.kinds, self.edges = spec
        boot.reset_order(order)
        self.plan = plan = uberjob.Plan()
        self.registry = reg = uberjob.Registry()
        n = len(self.kinds)
        times = dict(zip([j for j in range(n) if self.kinds[j] in "so"], state)) if state else {}
        TS = store_class()
        nodes = self.nodes = []
        halves = {}
        for j, k in enumerate(self.kinds):
            if k == "l":
                nodes.append(plan.lit(("lit", j)))
            elif k == "o":
                nodes.append(reg.source(plan, TS(self, j, times.get(j, 1))))
            else:
                args, kw = [], {}
                for i, jj, kk in self.edges:
                    if jj == j:
                        for x, ch in enumerate(kk):
                            if ch == "a":
                                args.append(nodes[i])
                            elif ch == "g":
                                args.append([nodes[i], {"x": (nodes[i],)}])
                            elif ch == "k":
                                kw[f"k{i}_{x}"] = nodes[i]
                            elif ch in "01":
                                if i not in halves:
                                    halves[i] = plan.unpack(nodes[i], 2)
                                args.append(halves[i][int(ch)])
                nodes.append(plan.call(self._fn(j), *args, **kw))
                if k == "s":
                    reg.add(nodes[-1], TS(self, j, times.get(j)))
        deps = [(i, j) for i, j, kk in self.edges if "d" in kk]
        for i, j in reversed(deps) if dep_rev else deps:
            plan.add_dependency(nodes[i], nodes[j])
        self.output = plans.build_out(out, nodes)
        self.mark = boot._order["n"]
        self.members = set(plans.out_nodes(out))
        self.consumers = {}
        for j, k in enumerate(self.kinds):
            use = frozenset(("c", jj) for i, jj, kk in self.edges if i == j and kk.replace("d", ""))
            if k == "s":
                self.consumers["c", j] = frozenset([("w", j)])
            self.consumers["r" if k in "so" else "c", j] = use
        self.executed = None
        self.log = []
        self.reset()

    def describe(self):
        return self.args

    def reset(self):
        self.log = []
        self.live = {}  # event -> weak references to what it returned
        self.finished = set()
        self.ended = set()
        self.last = {}
        self.tries = {}
        self.bad = []
        self.error = self.result = None
        self.excs = {}
        self.peak = 0
        boot._order["n"] = self.mark

    # -- events
    def start(self, ev):
        t = sched.cur()
        tid = t.id if t else 0
        self.log.append(("s", ev, tid))
        prev = self.last.get(tid)
        if prev is not None and prev in self.ended:
            self.finished.add(prev)
        self.last[tid] = ev
        self.check(f"start of {ev}")
        if t is not None:
            if self.gate is not None:
                self.gate.hold(t, ev)
            else:
                sched.S.yield_(t)

    def end(self, ev):
        self.ended.add(ev)
        self.log.append(("e", ev))
        self.check(f"end of {ev}")

    def made(self, ev, v):
        refs = [weakref.ref(v)]
        if type(v) is Many:
            refs += [weakref.ref(x) for x in v]
        self.live[ev] = refs
        self.end(ev)

    def _fn(self, j):
        def f(*args, **kwargs):
            return self.call(j)

        def fail(*args, **kwargs):
            return self.call(j)

        f.__name__ = f.__qualname__ = f"f{j}"
        return f

    def call(self, j):
        ev = ("c", j)
        n = self.tries[j] = self.tries.get(j, 0) + 1
        if n > 1:  # a retry: the same call goes on
            self.ended.discard(ev)
        self.start(ev)
        k = self.fails.get(j, 0)
        if k is None or n <= k:
            e = {"E": H.Boom, "B": H.BoomBase}[self.kind](j, n)
            self.excs[id(e)] = ev
            self.log.append(("x", ev))
            self.ended.add(ev)
            raise e
        v = Many([Tok((j, 0)), Tok((j, 1))]) if self.kinds[j] == "p" else Tok(("c", j))
        self.made(ev, v)
        return v

    # -- the property
    def dead_expected(self):
        for ev, refs in self.live.items():
            kind, j = ev
            is_read = kind == "r" or self.kinds[j] not in "so"
            if is_read and j in self.members:
                continue
            pend = self.consumers[ev] - self.finished
            if self.executed is not None:
                pend &= self.executed
            if pend or ev not in self.finished:
                continue
            yield ev, refs

    def check(self, when):
        sus = [(ev, refs) for ev, refs in self.dead_expected() if any(r() is not None for r in refs)]
        if sus:
            gc.collect()
            sus = [(ev, refs) for ev, refs in sus if any(r() is not None for r in refs)]
            for ev, refs in sus:
                if len(self.bad) < 20:
                    self.bad.append((ev, when, tuple(sorted(self.consumers[ev]))))

    def quiet(self, waiting):
        """Nothing can move but the calls in flight: every call that ended has finished."""
        self.finished |= self.ended - set(waiting)
        self.check(f"while only {sorted(waiting)} in flight")
        return None

    # -- running
    def main(self):
        import uberjob

        pr = None
        if self.progress == "console":
            pr = uberjob.progress.html_progress(lambda b: None)
        elif self.progress == "both":
            pr = (uberjob.progress.null_progress, uberjob.progress.html_progress(lambda b: None))
        try:
            self.result = uberjob.run(self.plan, registry=self.registry, output=self.output, progress=pr, **self.kw)
            self.log.append(("ret",))
        except sched.SchedAbort:
            raise
        except BaseException as e:
            self.error = e
            self.log.append(("raise",))
        self.finished |= self.ended
        self.check("return of run" if self.error is None else "failure of run")

    def body(self, s):
        self.reset()
        self.gate = None
        if self.use_gate:
            self.gate = H.Gate(self.quiet)
            s.on_quiet = self.gate.quiet
        return self.main

    def learn(self):
        """Which calls a successful run executes."""
        fails, self.fails = self.fails, {}
        g, self.use_gate = self.use_gate, False
        s = sched.Scheduler(sched.Chooser([], sched.ZERO))
        s.run(self.body(s))
        assert self.error is None, repr(self.error)
        self.executed = set(self.ended)
        self.fails, self.use_gate = fails, g

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=20_000):
        if self.executed is None:
            self.learn()
        yield from sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix, max_steps=max_steps)

    def once(self, choices, budget, trace=None):
        self.learn()
        return sched.run_once(self.body, choices, budget, trace=trace)


def oracle(c, s):
    if s is not None and (s.deadlock or s.livelock):
        return None
    blamed = c.excs.get(id(c.error.__cause__)) if c.error is not None else None
    if c.error is not None and not c.fails:
        return f"run raised {c.error!r} from {c.error.__cause__!r}"
    for ev, when, cons in c.bad:
        failed = [x for x in cons if x == blamed]
        # its arguments, or what its arguments were made of, may be held by the exception that run raises
        if failed:
            continue
        return f"the result of {ev} (consumed by {list(cons)}) is still referenced at the {when}"
    # after the run only the caller's result keeps anything alive
    c.result = c.error = None
    left = [ev for ev, refs in c.live.items() if any(r() is not None for r in refs)]
    if left:
        gc.collect()
        left = [ev for ev, refs in c.live.items() if any(r() is not None for r in refs)]
        if left:
            return f"the results of {left} are still referenced after run returned and its result was dropped"
    return None


def seen(c):
    return tuple(e[:2] for e in c.log)


def run_task(task):
    return H.run_cases(task, oracle, make=LCase, seen=seen)


def replay(r, v):
    H.replay_case(r, v, oracle, LCase)


coverage = H.coverage

EXTRA = {
    "gath": ("cccc", ((0, 2, "g"), (1, 2, "g"), (2, 3, "g"))),
    "gath2": ("cccc", ((0, 1, "g"), (0, 2, "a"), (1, 3, "g"), (2, 3, "a"))),
    "unp": ("pccc", ((0, 1, "0"), (0, 2, "1"), (1, 3, "a"), (2, 3, "a"))),
    "unpd": ("cpccc", ((0, 1, "a"), (1, 2, "0"), (1, 3, "1"), (2, 3, "d"), (3, 4, "a"))),
    "unpa": ("pcc", ((0, 1, "0"), (0, 1, "1"), (0, 2, "a"), (1, 2, "a"))),
    "unused": ("cccc", ((0, 1, "d"), (1, 2, "d"), (2, 3, "d"))),
    "twice": ("ccc", ((0, 1, "aa"), (0, 1, "k"), (1, 2, "ad"))),
    "long": ("cccccc", ((0, 1, "a"), (1, 2, "a"), (2, 3, "a"), (3, 4, "a"), (4, 5, "a"))),
    "fan": ("cccccc", ((0, 1, "a"), (0, 2, "a"), (0, 3, "k"), (1, 4, "a"), (2, 4, "g"), (3, 5, "a"), (4, 5, "a"))),
    "ff": ("cccccc", ((0, 1, "a"), (2, 3, "a"), (1, 4, "a"), (3, 4, "a"), (4, 5, "a"))),
    "ffo": ("ccccccc", ((0, 1, "a"), (2, 3, "k"), (4, 5, "a"), (1, 6, "d"), (3, 6, "a"), (5, 6, "a"))),
    "late": ("ccccc", ((0, 1, "a"), (1, 2, "d"), (2, 3, "d"), (3, 4, "d"))),
}


def wide_specs():
    """Calls with many arguments: n producers (or one producer many times) into one consumer, which feeds a tail."""
    out = []
    for n in (5, 8, 10, 11, 17, 25):
        for kk in ("a", "k", "g"):
            out.append(("c" * (n + 3), tuple((i, n, kk) for i in range(n)) + ((n, n + 1, "a"), (n + 1, n + 2, "a"))))
    for kk in ("a" * 12, "k" * 12, "g" * 6, "ak" * 8, "a" * 40):
        out.append(("ccccc", ((0, 1, kk), (0, 2, kk), (1, 3, kk), (2, 3, "a"), (3, 4, kk))))
        out.append(("cccc", ((0, 1, kk + "d"), (1, 2, "d"), (2, 3, "a"))))
    # literals beside results
    out.append(("l" * 12 + "cccc", tuple((i, 13, "a") for i in range(13)) + ((13, 14, "a"), (14, 15, "a"))))
    # one result into many consumers, one after the other
    for n in (10, 20):
        out.append(("c" * (n + 2), tuple((0, i, "ak"[i % 2]) for i in range(1, n + 1)) + tuple((i, i + 1, "d") for i in range(1, n + 1))))
    return out


def outs_of(spec):
    n = len(spec[0])
    yield ("none",)
    yield ("node", n - 1)
    yield ("list", (0, n - 1))
    yield ("nest", (n - 1, n // 2))
    yield ("list", tuple(range(n)))


def rstates(spec):
    from checks.stored import states

    rs = [j for j, k in enumerate(spec[0]) if k in "so"]
    return states(spec)


def tasks(tier, seed):
    q = tier == "quick"
    T = []
    shapes = {n: plans.SHAPES[n] for n in SMALL + MID}
    shapes.update(EXTRA)
    gate, pre, fl, ops = [], [], [], []
    for n, spec in shapes.items():
        for out in outs_of(spec):
            for W in (1, 2, 3):
                for sc in (None, "random"):
                    (gate if W > 1 else pre).append(H.kwt(spec=spec, out=out, W=W, scheduler=sc, gate=W > 1))
            pre.append(H.kwt(spec=spec, out=out, W=2))
            ops.append(H.kwt(spec=spec, out=out, W=2))
        cs = [j for j, k in enumerate(spec[0]) if k in "cp"]
        tail = ("node", len(spec[0]) - 1)
        for j in cs:
            fl.append(H.kwt(spec=spec, out=tail, W=2, fails=((j, 1),), retry=2, gate=True))
            fl.append(H.kwt(spec=spec, out=tail, W=1, fails=((j, 1),), retry=3))
            for me in (0, 1, None):
                fl.append(H.kwt(spec=spec, out=tail, W=2, fails=((j, None),), max_errors=me, gate=True, progress="console" if me is None else None))
                fl.append(H.kwt(spec=spec, out=tail, W=1, fails=((j, None),), max_errors=me, retry=2))
            for k in cs:
                if k > j:
                    fl.append(H.kwt(spec=spec, out=tail, W=2, fails=((j, None), (k, None)), max_errors=None, gate=True))
                    fl.append(H.kwt(spec=spec, out=tail, W=1, fails=((j, None), (k, None)), max_errors=None, kind="B"))
    wide = []
    for spec in wide_specs():
        n = len(spec[0])
        for out in (("none",), ("node", n - 1), ("list", (0, n - 1))):
            for W in (1, 2):
                wide.append(H.kwt(spec=spec, out=out, W=W, gate=W > 1, scheduler=("random", None)[W % 2]))
            wide.append(H.kwt(spec=spec, out=out, W=1, fails=((n - 2, 1),), retry=2))
            wide.append(H.kwt(spec=spec, out=out, W=1, fails=((n - 3, None),), max_errors=None))
            wide.append(H.kwt(spec=spec, out=out, W=2, fails=((n - 2, None),), max_errors=None, gate=True))
    T += H.chunk(wide, (H.B(0, 2, r=1, cap=6 if q else 200),), 20, "wide-")
    rc = []
    for n in ("src1", "chain", "mid", "fork", "forkc", "join", "diamond", "unstored", "twosrc", "both", "kw", "deponly", "tail", "upstored"):
        spec = REGS[n]
        for st in rstates(spec):
            for out in list(outs_of(spec))[:3]:
                rc.append(H.kwt(spec=spec, state=st, out=out, W=2, gate=True))
                rc.append(H.kwt(spec=spec, state=st, out=out, W=1, scheduler="random"))
    T += H.chunk(gate, (H.B(0, None, r=1, cap=700 if q else 10000),), 12, "gate-")
    T += H.chunk(pre, (H.B(1, 2, cap=500 if q else 5000),), 12, "pre-")
    T += H.chunk(fl, (H.B(0, 3, r=1, cap=200 if q else 3000),), 24, "fail-")
    T += H.chunk(rc, (H.B(0, 3, r=1, cap=200 if q else 3000),), 24, "reg-")
    T += H.chunk(ops[::1 if not q else 3], (H.B(1, 1, b=0, ops="exec", cap=500 if q else 5000),), 3, "ops-")
    s3 = specs(3, ("", "a", "d", "g", "k")) if not q else specs(3, ("", "a", "d", "g"))
    n3 = [H.kwt(spec=s, out=o, W=2, gate=True) for s in s3 for o in (("none",), ("node", len(s[0]) - 1))]
    n3 += [H.kwt(spec=s, out=o, W=1) for s in s3 for o in (("none",), ("node", len(s[0]) - 1))]
    T += H.chunk(n3, (H.B(0, None, r=1, cap=40),), 60, "n3-")
    s4 = specs(4, ("", "a", "d"))
    s4 = s4[seed % 4::4] if q else s4
    T += H.chunk([H.kwt(spec=s, out=("node", 3), W=1) for s in s4], (H.B(0, 0, cap=4),), 200, "n4-")
    big = []
    for s in big_specs():
        for W in (1, 2, 4):
            for sc in (None, "random"):
                big.append(H.kwt(spec=s, W=W, scheduler=sc, out=("node", len(s[0]) - 1), gate=W > 1))
    T += H.chunk(big, (H.B(1, 1, r=1, cap=10 if q else 300),), 4, "big-")
    return T


def free(r, tier, seed):
    """Real threads, one worker: the same check at every call start (a call has finished once the worker starts another)."""
    n = 0
    for spec in [*plans.SHAPES.values(), *EXTRA.values()]:
        for out in outs_of(spec):
            for sc in (None, "random"):
                c = LCase(spec, out=out, scheduler=sc)
                c.gate = None
                c.main()
                c.executed = set(c.ended)
                for _ in range(2):
                    c.reset()
                    c.gate = None
                    c.main()
                    n += 1
                    m = oracle(c, None)
                    if m:
                        r.violation(f"free-running: {m}; {c.describe()}")
                        return n
    return n
