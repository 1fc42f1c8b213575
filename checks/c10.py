"""C10: max_workers, stale_check_max_workers, max_errors and retry are honoured."""
from checks.common import MID, SCHEDS, SMALL, big_specs, calls, shape_cases, specs, subsets
from checks.stored import R as REGS
from checks.stored import enum_reg_specs, state_cases, states
from mc import harness as H
from mc import plans, sched, worlds
from mc.core import R as Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md",
    "'ready' is judged when the engine is quiescent: every call in flight is held until nothing else can move",
]
coverage = H.coverage


class Deco:
    """A user's retry decorator: up to n attempts, counts how often it is asked to decorate."""

    def __init__(self, n):
        self.n = n

    def __call__(self, f):
        def inner(*args, **kwargs):
            for i in range(self.n):
                try:
                    return f(*args, **kwargs)
                except BaseException:
                    if i == self.n - 1:
                        raise

        return inner


def coerce_retry(kw):
    d = dict(kw)
    r = d.get("retry")
    n = 1
    every = False
    if isinstance(r, tuple):  # ("deco", n)
        n = r[1]
        every = True
        d["retry"] = Deco(n)
    elif r is not None:
        n = r
    return d, n, every


# ------------------------------------------------------------------------------- plain calls
def make(**kw):
    d, n, every = coerce_retry(kw)
    c = H.Case(**d)
    c.allowed, c.every = n, every
    c.need = plans.needed(c.spec, plans.out_nodes(c.out))
    if kw.get("gate"):
        c.quiet_check = lambda held: quiet(c, held)
    return c


def always_fails(c, i):
    return i in c.fails or c.flaky.get(i, 0) >= c.allowed


def failed_calls(case):
    """Calls whose last allowed attempt failed, in order of that failure."""
    tries, out = {}, []
    for e in case.log:
        if e[0] == "x":
            i = e[1]
            tries[i] = tries.get(i, 0) + 1
            if tries[i] >= case.allowed or not (case.every or isinstance(case.exc[i][tries[i] - 1], Exception)):
                out.append(i)
    return out


def quiet(case, held):
    """Called with every in-flight call held and nothing else able to move."""
    failed = failed_calls(case)
    if case.max_errors is not None and len(failed) > case.max_errors:
        return None
    ended = {e[1] for e in case.log if e[0] == "e"}
    inflight = {i for _, i in held}
    ready = [i for i in case.need if i not in ended and i not in failed and case.canc[i] <= ended]
    if case.W is not None and len(held) < min(case.W, len(ready)):
        return (f"{len(ready)} independent calls {sorted(ready)} are ready and max_workers={case.W}, "
                f"but only {len(held)} run in parallel ({sorted(inflight)})")
    return None


def oracle(case, s):
    W = case.W
    if case.gate is not None and case.gate.bad:
        return case.gate.bad
    n = peak = 0
    failed = []
    tries, over = {}, set()
    k = case.max_errors
    for e in case.log:
        if e[0] == "s":
            n += 1
            peak = max(peak, n)
            i = e[1]
            if W is not None and n > W:
                return f"{n} calls in flight with max_workers={W}"
            tries[i] = tries.get(i, 0) + 1
            if tries[i] > case.allowed:
                return f"call {i} attempted {tries[i]} times with retry={case.allowed}"
            if i in over:
                return f"call {i} attempted again after it had succeeded"
            if W == 1 and k is not None and len(failed) > k:
                return f"call {i} started after {len(failed)} failures with max_errors={k} and one worker"
        elif e[0] == "e":
            n -= 1
            over.add(e[1])
        elif e[0] == "x":
            n -= 1
            i = e[1]
            if tries[i] >= case.allowed or not (case.every or isinstance(case.exc[i][tries[i] - 1], Exception)):
                failed.append(i)
    if s is not None and (s.deadlock or s.livelock):
        if case.gate is not None:
            return "the run never finishes although every call in flight is eventually let go"
        return None
    eligible = {i for i in case.need if not any(always_fails(case, a) for a in case.canc[i])}
    F = {i for i in eligible if always_fails(case, i)}
    if set(failed) - F:
        return f"calls {sorted(set(failed) - F)} failed for good although an allowed attempt would have succeeded"
    if k is not None:
        if W is not None and len(failed) > k + W:
            return f"{len(failed)} calls failed with max_errors={k} and {W} workers"
        if W == 1 and len(failed) != min(k + 1, len(F)):
            return f"{len(failed)} calls failed with one worker and max_errors={k}; {len(F)} calls could fail"
        if len(failed) < min(k + 1, len(F)):
            return f"only {len(failed)} calls failed with max_errors={k} although {len(F)} could"
    else:
        if set(tries) != eligible:
            return f"max_errors=None: calls {sorted(eligible - set(tries))} have no failed dependency but were not executed"
    if not F:
        if ("ret",) not in case.log:
            return f"every call succeeds within {case.allowed} attempts but run raised {case.error!r}"
        for i in case.need:
            if tries.get(i) != 1 + case.flaky.get(i, 0):
                return f"call {i} attempted {tries.get(i)} times; it fails {case.flaky.get(i, 0)} times first"
        if case.result != plans.out_value(case.spec, case.out):
            return f"run returned {case.result!r}"
    elif failed:
        for i in failed:
            if i in case.fails and isinstance(case.exc[i][0], Exception) and tries[i] != case.allowed:
                return f"failing call {i} attempted {tries[i]} times with retry={case.allowed}"
        err = case.error
        cause = getattr(err, "__cause__", None)
        lasts = [case.exc[i][-1] for i in failed]
        if not any(cause is x for x in lasts):
            return f"the reported exception {cause!r} is not that of the last attempt of a failed call ({lasts!r})"
    return None


# ------------------------------------------------------------------------------- calls, reads, writes, mtimes
def smake(**kw):
    d, n, every = coerce_retry(kw)
    c = worlds.SCase(mpoints=True, **d)
    c.args["retry"] = kw.get("retry")
    c.allowed, c.every = n, every
    return c


def soracle(case, s):
    w = case.world
    W, SW = case.W, case.stale_W or case.W
    n = {"m": 0, "o": 0}
    tries = {}
    ok = set()
    closed = {"M": "m", "R": "r", "W": "w", "e": "s"}
    failed = []
    for e in case.log:
        k = e[0]
        if k in ("m", "r", "w", "s") and len(e) == 3:
            g = "m" if k == "m" else "o"
            n[g] += 1
            if g == "m" and SW is not None and n["m"] > SW:
                return f"{n['m']} modified-time queries in flight with stale_check_max_workers={case.stale_W}, max_workers={W}"
            if g == "o" and W is not None and n["o"] > W:
                return f"{n['o']} calls and store operations in flight with max_workers={W}"
            key = (k, e[1])
            if key in ok:
                return f"operation {key} attempted again after it had succeeded"
            tries[key] = tries.get(key, 0) + 1
            if tries[key] > case.allowed:
                return f"operation {key} attempted {tries[key]} times with retry={case.allowed}"
        elif k in closed and len(e) == 2:
            n["m" if k == "M" else "o"] -= 1
            ok.add((closed[k], e[1]))
        elif k in ("xm", "xr", "xw", "xs") and len(e) == 2:
            if k == "xr" and ("r", e[1]) not in w.fired:
                pass  # a read of a missing value: an ordinary failure
            n["m" if k == "xm" else "o"] -= 1
            if tries[(k[1], e[1])] >= case.allowed:
                failed.append((k[1], e[1]))
    if s is not None and (s.deadlock or s.livelock):
        return None
    exhausted = {key for key, f in w.fail.items() if f is None or f >= case.allowed}
    bad = set(failed) - exhausted
    if bad:
        return f"operations {sorted(bad)} failed for good although an allowed attempt would have succeeded"
    if not failed and case.error is not None:
        return f"every operation succeeds within {case.allowed} attempts but run raised {case.error!r}"
    if failed:
        last = {}
        for k, j, e in w.excs:
            last[(k, j)] = e
        cause = getattr(case.error, "__cause__", None)
        if not any(cause is last[f] for f in failed):
            return f"the reported exception {cause!r} is not that of the last attempt of a failed operation {failed}"
        for f in failed:
            if tries[f] != case.allowed:
                return f"failing operation {f} attempted {tries[f]} times with retry={case.allowed}"
    for key, f in w.fail.items():
        if key in tries and f is not None and f < case.allowed and key in ok and tries[key] != f + 1:
            return f"operation {key} attempted {tries[key]} times; it fails {f} times first"
    return None


def run_odd(r, W, scheduler):
    """Attempts stop at the first success, whatever value the call, the store's read or its modified-time query returns."""
    import datetime as dt

    import uberjob
    from checks.c02 import odd_values
    from uberjob import ValueStore

    for i, v in enumerate(odd_values()):
        for retry in (1, 2, 3, ("deco", 3)):
            for fail in range(retry if isinstance(retry, int) else retry[1]):
                cnt = {"call": 0, "read": 0, "write": 0, "time": 0}

                def op(kind, value):
                    cnt[kind] += 1
                    if cnt[kind] <= fail:
                        raise ValueError(kind)
                    return value

                class Src(ValueStore):
                    def read(self):
                        return op("read", v)

                    def write(self, value):
                        raise AssertionError

                    def get_modified_time(self):
                        return op("time", dt.datetime(2020, 1, 1))

                class Dst(Src):
                    def read(self):
                        return v

                    def write(self, value):
                        return op("write", v)

                    def get_modified_time(self):
                        return None

                plan, reg = uberjob.Plan(), uberjob.Registry()
                x = reg.source(plan, Src())
                y = plan.call(lambda a: op("call", v), x)
                z = plan.call(lambda a: a, y)
                reg.add(z, Dst())
                rt = Deco(retry[1]) if isinstance(retry, tuple) else retry
                res, err, s = H.solo(lambda: uberjob.run(plan, registry=reg, output=[x, y], max_workers=W, scheduler=scheduler, retry=rt,
                                                         progress=None))
                r.n["executions"] += 1
                r.n["steps"] += s.steps
                r.n["cases"] += 1
                want = {k: fail + 1 for k in cnt}
                if err is not None or cnt != want or res[0] is not v or res[1] is not v:
                    r.violation(f"operations returning a value of {type(v)} (number {i}) after {fail} failures with retry={retry}: attempts {cnt}, "
                                f"expected {want}; run gave {err!r} from {getattr(err, '__cause__', None)!r}", key=f"odd success {i} {retry} {fail}")
        r.seen(("odd", i))


def run_task(task):
    if task[0] == "oddok":
        r = Res()
        run_odd(r, *task[1:])
        return r
    if task[0].startswith("S"):
        return H.run_cases(task, soracle, make=smake)
    return H.run_cases(task, oracle, make=make)


def replay(r, v):
    if "state=" in v["data"].get("case", "") or "'state'" in v["data"].get("case", ""):
        H.replay_case(r, v, soracle, make=smake)
    else:
        H.replay_case(r, v, oracle, make=make)


WIDE = {
    "w4": ("cccc", ()),
    "w6": ("cccccc", ()),
    "fan4": ("ccccc", ((0, 1, "a"), (0, 2, "a"), (0, 3, "d"), (0, 4, "k"))),
    "fanlit": ("clccc", ((0, 1, "d"), (1, 2, "d"), (1, 3, "d"), (1, 4, "a"))),
    "joinfan": ("cccccc", ((0, 2, "a"), (1, 2, "a"), (2, 3, "a"), (2, 4, "a"), (2, 5, "a"))),
    "twin": ("cccccc", ((0, 1, "a"), (1, 2, "a"), (3, 4, "a"), (4, 5, "a"))),
    "ladder": ("cccccc", ((0, 2, "a"), (1, 3, "a"), (2, 4, "a"), (3, 4, "a"), (3, 5, "a"), (2, 5, "d"))),
    "tri": ("ccccccc", ((0, 3, "a"), (1, 3, "a"), (1, 4, "a"), (2, 4, "a"), (3, 5, "a"), (4, 5, "a"), (4, 6, "a"))),
}
KS = (0, 1, 2, None)


def err_cases(spec, Ws, ks=KS, kinds="E", hi=None, **kw):
    for f in subsets(calls(spec), hi=hi):
        for W in Ws:
            for k in ks:
                for kd in kinds:
                    yield H.kwt(spec=spec, W=W, max_errors=k, fails={i: kd for i in f}, **kw)


def retry_cases(spec, Ws=(1, 2)):
    for i in calls(spec):
        for rt in (2, 3, ("deco", 2)):
            n = rt if isinstance(rt, int) else rt[1]
            for j in range(1, n + 1):
                for W in Ws:
                    yield H.kwt(spec=spec, W=W, retry=rt, flaky={i: j})
            for kd in "EBV":
                yield H.kwt(spec=spec, W=Ws[-1], retry=rt, fails={i: kd}, max_errors=None)


def store_fail_cases(names, Ws=(1, 2), fails=(1, 2, None), retries=(2, 3, ("deco", 3))):
    for n in names:
        spec = REGS[n]
        for st in states(spec):
            for j, kd in enumerate(spec[0]):
                ops = []
                if kd in "soy":
                    ops += ["m", "r"]
                if kd == "s":
                    ops += ["w", "s"]
                if kd == "c":
                    ops += ["s"]
                for op in ops:
                    for f in fails:
                        for rt in retries:
                            for W in Ws:
                                yield H.kwt(spec=spec, state=st, W=W, fail=(((op, j), f),), retry=rt,
                                            max_errors=None if W == 1 else 0, out=("list", tuple(range(len(spec[0])))))


def fix(kw):
    d = dict(kw)
    if isinstance(d.get("fail"), tuple):
        d["fail"] = dict(d["fail"])
    return d


_smake = smake


def smake(**kw):  # noqa: F811
    return _smake(**fix(kw))


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    names = SMALL + MID
    ALLS = {**{n: plans.SHAPES[n] for n in names}, **WIDE}
    gate = [H.kwt(spec=s, W=W, scheduler=sc, gate=True) for s in ALLS.values() for W in (1, 2, 3, 4, 7) for sc in SCHEDS]
    T += H.chunk(gate, (H.B(0, 2, cap=120), H.B(1, 1, p=0, cap=60)), 12, "gate-")
    T += H.chunk((H.kwt(spec=ALLS[n], W=W, scheduler=None, gate=True) for n in ("join", "w4", "fanlit", "ladder") for W in (2, 3)),
                 (H.B(1, 0, cap=1500 if quick else 20000),), 1, "gatep-")
    specs3 = [s for n in (2, 3) for s in specs(n, ("", "a", "d"))]
    specs4 = specs(4, ("", "a", "d"))
    T += H.chunk((H.kwt(spec=s, W=W, gate=True) for s in specs3 for W in (2, 3)), (H.B(1, None, p=0, cap=100),), 40, "gate3-")
    T += H.chunk((H.kwt(spec=s, W=2 + j % 2, gate=True, scheduler=SCHEDS[(j // 2) % 2]) for j, s in enumerate(specs4)),
                 (H.B(0, 1),), 500, "gate4-")
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc, gate=True) for s in big_specs() for W in (2, 5, 16) for sc in SCHEDS),
                 (H.B(0, 1, cap=20),), 4, "gatebig-")
    T += H.chunk((H.kwt(spec=("c" * n + "".join(x for x, _ in tail), tuple((0, n + j, "d") for j, (_, _) in enumerate(tail))), W=W,
                        scheduler=sc, gate=True)
                  for n, W in ((33, 33), (40, 36), (48, 64), (70, 65), (130, 129)) for tail in ((), (("c", 0),)) for sc in SCHEDS),
                 (H.B(0, 0),), 2, "gatemany-")
    # max_errors
    ew = [plans.SHAPES[n] for n in ("pair", "join", "fork", "join3", "diamond", "vialit", "twochains")] + [WIDE["w4"], WIDE["fan4"]]
    T += H.chunk((c for s in ew for c in err_cases(s, (1,), kinds="EB", hi=4)), (H.B(0, 0),), 120, "err1-")
    T += H.chunk((c for s in ew for c in err_cases(s, (1,), scheduler="random", hi=3)), (H.B(1, 0, p=0),), 60, "err1r-")
    T += H.chunk((c for s in ew for c in err_cases(s, (2, 3), hi=3)), (H.B(0, 2, cap=60),), 40, "errw-")
    T += H.chunk((c for s in ew for c in err_cases(s, (2, 3), ks=(0, 1, None), hi=4, gate=True)), (H.B(0, 2, cap=60),), 40, "errg-")
    T += H.chunk((c for n in ("pair", "join", "join3", "w4") for c in err_cases({**plans.SHAPES, **WIDE}[n], (2,), ks=(0, 1), hi=4)),
                 (H.B(1, 0, cap=1500),), 3, "errp-")
    T += H.chunk((c for n in ("pair", "join3") for c in err_cases(plans.SHAPES[n], (2,), ks=(0, 1), hi=3)),
                 (H.B(1, 0, ops="exec", cap=6000),), 1, "errop-")
    T += H.chunk((H.kwt(spec=WIDE[n], W=2, max_errors=k, fails={i: "E" for i in calls(WIDE[n])}, scheduler=sc)
                  for n in ("w4", "w6", "fan4", "tri") for k in (0, 1, 2) for sc in (None, "random")), (H.B(1, 2, r=0, cap=2500),), 1, "erryp-")
    T += [("oddok", W, sc) for W in (1, 2) for sc in SCHEDS]
    T += H.chunk((c for s in specs3 for c in err_cases(s, (1, 2), ks=(0, 1, None))), (H.B(1, 0, p=0, cap=40),), 100, "err3-")
    T += H.chunk((H.kwt(spec=s, W=1, max_errors=k, fails={i: "E" for i in f}) for s in specs4 for f in subsets(calls(s), lo=2, hi=3)
                  for k in (1, None)), (H.B(0, 0),), 1500, "err4-")
    T += H.chunk((H.kwt(spec=s, W=W, max_errors=k, fails={i: "E" for i in range(0, len(s[0]), 3) if s[0][i] == "c"})
                  for s in big_specs() for W in (1, 3) for k in (0, 1, 4, None)), (H.B(0, 1, cap=30),), 8, "errbig-")
    # retry
    T += H.chunk((c for n in names for c in retry_cases(plans.SHAPES[n])), (H.B(1, 0, p=0, cap=60),), 40, "retry-")
    T += H.chunk((c for n in ("pair", "join") for c in retry_cases(plans.SHAPES[n], (2,))), (H.B(1, 0, ops="exec", cap=4000),), 2, "retryop-")
    T += H.chunk((H.kwt(spec=WIDE["fan4"], W=W, retry=rt, flaky={1: 1, 2: 1, 3: 2}, fails={4: "E"}, max_errors=k)
                  for W in (1, 2, 3) for rt in (1, 2, 3) for k in (0, 1, None)), (H.B(1, 1, p=0, cap=200),), 4, "retrym-")
    # stores
    core = ("chain", "mid", "fork", "join", "dsrcs", "depcall", "both", "twosrc", "two", "tail", "litdep")
    T += H.chunk((c for W in (1, 2, 3) for SW in (None, 1, 2) for c in
                  state_cases(core, Ws=(W,), scheds=(None,), stale_W=SW, gate=True)), (H.B(0, 1, cap=30),), 60, "Sgate-")
    T += H.chunk(state_cases(core, Ws=(2,), stale_W=1), (H.B(1, 0, cap=400),), 12, "Sp-")
    T += H.chunk(state_cases(core, Ws=(1,), stale_W=2), (H.B(1, 0, cap=400),), 12, "Sq-")
    T += H.chunk(store_fail_cases(("src1", "chain", "mid", "join", "dsrcs", "both")), (H.B(0, 0),), 150, "Sfail-")
    T += H.chunk(store_fail_cases(("chain", "join"), Ws=(2,), retries=(2,)), (H.B(1, 1, cap=60),), 40, "Sfailp-")
    s3 = [s for n in (2, 3) for s in enum_reg_specs(n, "osc", ("", "a", "d"))]
    T += H.chunk((H.kwt(spec=s, state=st, W=W, stale_W=SW, gate=True) for s in s3 for st in states(s) for W, SW in ((2, 1), (1, 3), (2, None))),
                 (H.B(0, 0),), 300, "Sg3-")
    if not quick:
        T += H.chunk(gate, (H.B(1, None, cap=3000), H.B(2, 0, cap=3000)), 2, "gatet-")
        T += H.chunk((c for s in ew for c in err_cases(s, (2, 3), hi=4, kinds="EB")), (H.B(1, 1, cap=3000),), 4, "errt-")
        T += H.chunk((c for s in specs3 for c in err_cases(s, (2, 3), ks=(0, 1, None))), (H.B(1, None, cap=600),), 30, "err3t-")
        T += H.chunk((H.kwt(spec=s, W=W, gate=True, scheduler=sc) for s in specs4 for W in (2, 3) for sc in SCHEDS), (H.B(0, None, cap=300),), 100, "gate4t-")
        T += H.chunk(state_cases(tuple(REGS), Ws=(1, 2, 3), stale_W=2), (H.B(1, 1, cap=1500),), 4, "Spt-")
        T += H.chunk(store_fail_cases(tuple(REGS)), (H.B(1, 0, p=0, cap=60),), 100, "Sfailt-")
    return T


def free(r, tier, seed):
    """On real threads: W calls rendezvous at a barrier that only opens when all W are in flight."""
    import threading

    import uberjob

    n = 0
    for W in (1, 2, 3, 5):
        for sc in SCHEDS:
            for spec in (("c" * W, ()), ("c" * (2 * W), tuple((i, W + i, "a") for i in range(W)))):
                bars = [threading.Barrier(W) for _ in range(len(spec[0]) // W)]
                plan = uberjob.Plan()
                nodes = []
                for j in range(len(spec[0])):
                    def f(*a, b=bars[j // W]):
                        b.wait(60)
                        return 1
                    nodes.append(plan.call(f, *[nodes[i] for i, jj, _ in spec[1] if jj == j]))
                n += 1
                try:
                    uberjob.run(plan, output=nodes[-W:], max_workers=W, scheduler=sc, progress=None)
                except Exception as e:
                    r.violation(f"free-running: {W} ready calls never ran in parallel with max_workers={W}: {e!r}", case=repr(spec))
    cs = [c for s in (plans.SHAPES["join3"], WIDE["w4"], WIDE["fan4"]) for c in err_cases(s, (1, 2, 3), hi=2)]
    n += H.free_traces(r, oracle, cs, make=make, reps=1 if tier == "quick" else 10)
    n += H.free_traces(r, soracle, list(state_cases(("chain", "join", "tail"), Ws=(1, 2), scheds=(None,))), make=smake, reps=1)
    return n
