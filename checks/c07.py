"""C07: run always terminates and leaves nothing running; cycles are rejected up front."""
import itertools
import sys

from checks.common import MID, SCHEDS, SMALL, big_specs, calls, shape_cases, specs, subsets
from checks.stored import R as REGS
from checks.stored import states
from mc import harness as H
from mc import oddexc, plans, sched, worlds
from mc.core import R as Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the user's calls, stores and observers themselves return in finite time",
    "a run that cannot start one of its threads may raise or go on with fewer threads, but has to end",
    "cycles among nodes the run does not have to examine (not upstream of the output or of a registered node) are not judged",
]


class Sink:
    """A stdout stand-in for the console display (never blocks, never fails)."""

    encoding = "utf-8"

    def write(self, x):
        return len(x)

    def flush(self):
        pass


def progress_of(kind):
    from uberjob import progress as p

    if kind == "console":
        return p.console_progress
    if kind == "html":
        return p.html_progress(lambda b: None)
    if kind == "both":
        return (p.console_progress, p.html_progress(lambda b: None))
    return None


def make(**kw):
    kind = kw.pop("prog", None)
    reg = kw.pop("reg", False)
    case = (worlds.SCase if reg else H.Case)(**kw, progress=progress_of(kind))
    case.prog = kind
    return case


def oracle(case, s):
    after = None
    for k, e in enumerate(case.log):
        if e[0] in ("ret", "raise"):
            after = k
    if after is not None and after != len(case.log) - 1:
        return f"after run returned, still executing: {case.log[after + 1:]}"
    if s is None:
        return None
    if s.deadlock:
        return f"run hangs: threads {s.leftover} wait for ever"
    if s.livelock:
        return f"run does not end within {s.steps} scheduling steps ({s.limit_reason})"
    if s.live_at_return:
        return f"threads {s.live_at_return} created by run are still alive when it returns or raises"
    if s.leftover:
        return f"threads {s.leftover} never exit"
    if case.error is None and ("ret",) not in case.log:
        return "run neither returned nor raised"
    return None


# ------------------------------------------------------------------------------------------------ cycles
def has_cycle_within(n, edges, nodes):
    nodes = set(nodes)
    while True:
        drop = {x for x in nodes if not any(j == x and i in nodes for i, j in edges)}
        if not drop:
            return bool(nodes)
        nodes -= drop


def up_closed(edges, seeds):
    seen = set(seeds)
    todo = list(seeds)
    while todo:
        x = todo.pop()
        for i, j in edges:
            if j == x and i not in seen:
                seen.add(i)
                todo.append(i)
    return seen


def run_cyclic(r, spec, out, W, scheduler, order=0, transform=False):
    kinds, es = spec
    n = len(kinds)
    w = worlds.World(spec, order=order)
    w.points = False
    edges = {(i, j) for i, j, _ in es}
    examined = up_closed(edges, set(plans.out_nodes(out)) | {j for j, k in enumerate(kinds) if k in worlds.REG})
    must = has_cycle_within(n, edges, examined)
    st = tuple((("src", j, 0), 1) if kinds[j] == "o" else (None, None) for j in sorted(w.stores))
    box = {}

    def go():
        try:
            box["res"] = w.run(out, max_workers=W, scheduler=scheduler)
        except sched.SchedAbort:
            raise
        except BaseException as e:
            box["err"] = e

    def body(s):
        w.set(st, 10)
        w.reset_run()
        box.clear()
        return go

    s, _ = sched.run_once(body)
    r.n["executions"] += 1
    r.n["steps"] += s.steps
    r.n["cyclic_plans"] += 1
    if s.deadlock or s.livelock:
        return "run hangs on a cyclic plan"
    if s.live_at_return:
        return "threads still alive when run returns from a cyclic plan"
    if must:
        r.n["cyclic_must_be_rejected"] += 1
        if "err" not in box:
            return f"a dependency cycle was not reported: run returned {box.get('res')!r}"
        if not isinstance(box["err"], Exception):
            return f"a dependency cycle raised {box['err']!r}"
        bad = [e for e in w.log if e[0] in "srwm"]
        if bad:
            return f"a dependency cycle was reported ({box['err']!r}) only after {bad}"
    return None


def cyclic_specs(n, kinds, kk=("", "a", "d"), back=True):
    """All plans with n nodes: forward argument/dependency edges plus any backward dependency edges and self-loops."""
    for ks in itertools.product(kinds, repeat=n):
        fw = [(i, j) for j in range(n) for i in range(j)]
        fopts = [[k for k in kk if k != "a" or ks[j] in "cs"] if not (ks[j] == "o" and False) else [""] for i, j in fw]
        bw = [(i, j) for j in range(n) for i in range(j, n)]
        for fc in itertools.product(*fopts):
            for bc in itertools.product(("", "d"), repeat=len(bw)):
                if not any(bc):
                    continue
                es = tuple((i, j, k) for (i, j), k in zip(fw + bw, fc + bc) if k)
                yield ("".join(ks), es)


def cyc_outs(spec):
    n = len(spec[0])
    return [("list", tuple(range(n))), ("none",), *(("node", i) for i in range(n))]


def run_task(task):
    kind = task[0].split("-")[0]
    if kind == "cyc":
        r = Res()
        for spec, W, sc in task[1]:
            for out in cyc_outs(spec):
                m = run_cyclic(r, spec, out, W, sc)
                r.seen((spec, out))
                if m:
                    r.violation(f"{m}; plan {spec} output {out} W={W} {sc}", key=f"{m} @ {spec} {out}"[:300], kind="cyc",
                                case=repr((spec, out, W, sc)))
                    return r
        return r
    old = sys.stdout
    sys.stdout = Sink()
    try:
        return H.run_cases(task, oracle, make=make)
    finally:
        sys.stdout = old


def replay(r, v):
    import ast

    d = v["data"]
    if d.get("kind") == "cyc":
        spec, out, W, sc = ast.literal_eval(d["case"])
        m = run_cyclic(r, spec, out, W, sc)
        if m:
            r.violation(m)
    else:
        H.replay_case(r, v, oracle, make=make)


def fail_cases(names, Ws, kinds, mes=(0, None), hi=2, scheds=(None,), **kw):
    for n in names:
        sp = plans.SHAPES[n]
        for f in subsets(calls(sp), hi=hi):
            for k in kinds:
                for W in Ws:
                    for m in mes:
                        for sc in scheds:
                            yield H.kwt(spec=sp, W=W, max_errors=m, fails={i: k for i in f}, scheduler=sc, **kw)


def reg_cases(names, Ws=(2,), scheds=SCHEDS, fails=(), **kw):
    for n in names:
        spec = REGS[n]
        for st in states(spec):
            for W in Ws:
                for sc in scheds:
                    yield H.kwt(reg=True, spec=spec, state=st, W=W, scheduler=sc, out=("list", tuple(range(len(spec[0])))), **kw)


def reg_fail_cases(names, **kw):
    for n in names:
        spec = REGS[n]
        none = tuple(1 if spec[0][j] == "o" else None for j in sorted(j for j, k in enumerate(spec[0]) if k in worlds.REG))
        for j, k in enumerate(spec[0]):
            ops = {"s": "srwm", "c": "s", "o": "rm", "y": "rm", "L": "rwm"}.get(k, "")
            for op in ops:
                for me in (0, None):
                    yield H.kwt(reg=True, spec=spec, state=none, W=2, out=("list", tuple(range(len(spec[0])))), fail={(op, j): None},
                                max_errors=me, **kw)


def tasks(tier, seed):
    quick = tier == "quick"
    names = SMALL + MID
    T = []
    # cycles
    cyc = []
    for n in (1, 2):
        cyc += [(s, 1, None) for s in cyclic_specs(n, "clsoyL")]
    c3 = list(cyclic_specs(3, "cl", ("", "a") if quick else ("", "a", "d")))
    c3r = list(cyclic_specs(3, "clso", ("", "a")))
    if quick:
        c3, c3r = c3[seed % 3::3], c3r[seed % 16::16]
    cyc += [(s, 1 + i % 2, SCHEDS[i % 2]) for i, s in enumerate(c3 + c3r)]
    lit4 = [("clll", tuple(es)) for es in _lit_cycles(4)] + [("llllc", tuple(es)) for es in _lit_cycles(5)]
    cyc += [(s, 1, None) for s in lit4]
    T += [(f"cyc-{i}", tuple(cyc[i:i + 250])) for i in range(0, len(cyc), 250)]
    # schedules and failures
    T += H.chunk(shape_cases(SMALL + MID, scheds=(None,), Ws=(2,)), (H.B(1, 0, ops="all", cap=8000),), 1, "op1-")
    T += H.chunk(fail_cases(("pair", "join", "chain2", "vialit"), (2,), "E", hi=1), (H.B(1, 0, ops="exec", cap=4000),), 1, "op1f-")
    T += H.chunk(shape_cases(SMALL), (H.B(1, None), H.B(2, 1, cap=2000 if quick else 60000)), 1, "small-")
    T += H.chunk(shape_cases(MID), (H.B(1, 1), H.B(2, 0, cap=1500 if quick else 60000)), 1, "mid-")
    T += H.chunk(fail_cases(("pair", "join", "fork", "diamond", "twochains"), (2, 3), "E", (0, 1, None), hi=2), (H.B(1, 1, cap=2000),), 3, "conc-")
    T += H.chunk(fail_cases(names + ("single",), (1, 2), "BKSIM", (0, None), hi=1, scheds=SCHEDS), (H.B(1, 0, p=0),), 20, "kinds-")
    T += H.chunk(fail_cases(("single", "pair", "join", "chain3", "vialit"), (1, 2), oddexc.KINDS, (0, 1, None), hi=2), (H.B(0, None, r=0, cap=40),), 60, "odd-")
    T += H.chunk(fail_cases(("single", "pair", "join"), (1, 2), oddexc.KINDS, (0, None), hi=1, retry=2), (H.B(0, 0),), 60, "oddr-")
    T += H.chunk(fail_cases(SMALL, (2,), "EB", (0, None), hi=1, retry=2), (H.B(1, 0),), 12, "retry-")
    # thread start failures
    T += H.chunk((H.kwt(spec=plans.SHAPES[n], W=W, scheduler=sc, start_fail=k, prog=pr)
                  for n in ("single", "pair", "join", "fork", "vialit", "diamond") for W in (1, 2, 3) for k in range(1, W + 2)
                  for sc in SCHEDS for pr in (None, "console")),
                 (H.B(1, 1, cap=500),), 6, "start-")
    T += H.chunk(reg_cases(("chain", "join"), start_fail=1) , (H.B(1, 0, cap=300),), 6, "rstart1-")
    T += H.chunk((c for k in (2, 3, 4) for c in reg_cases(("chain", "join", "dsrc"), start_fail=k)), (H.B(1, 0, cap=200),), 8, "rstart-")
    # observers with their own update thread
    for pr in ("console", "html", "both"):
        T += H.chunk(shape_cases(("pair", "join", "fork"), Ws=(1, 2), prog=pr), (H.B(1, 0, cap=2000), H.B(0, None, cap=500)), 1, f"prog-{pr}-")
        T += H.chunk(fail_cases(("pair", "join"), (2,), "EB", (0, None), prog=pr), (H.B(1, 0, cap=500),), 4, f"progf-{pr}-")
        T += H.chunk(reg_cases(("chain", "dsrc"), prog=pr), (H.B(1, 0, cap=300),), 4, f"progr-{pr}-")
    T += H.chunk(shape_cases(("pair", "join"), Ws=(2,), scheds=(None,), prog="console"), (H.B(1, 0, ops="progress", cap=4000),), 1, "progop-")
    # registry plans
    rn = ("chain", "mid", "join", "fork", "deponly", "litdep", "dsrc", "dsrcs", "unstored")
    T += H.chunk(reg_cases(rn), (H.B(1, 0, cap=600),), 3, "reg-")
    T += H.chunk(reg_cases(("chain", "join", "dsrcs"), scheds=(None,), mpoints=True), (H.B(1, 1, cap=800),), 3, "regm-")
    T += H.chunk(reg_fail_cases(rn), (H.B(1, 0, cap=150),), 6, "regf-")
    T += H.chunk(reg_fail_cases(("chain", "join"), mpoints=True, stale_W=3), (H.B(1, 1, cap=300),), 3, "regfm-")
    specs3 = [s for n in (2, 3) for s in specs(n, ("", "a", "d", "ad"))]
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=SCHEDS[j % 2], max_errors=m, fails={i: "E" for i in f})
                  for j, s in enumerate(specs3) for f in subsets(calls(s), lo=0) for m in (0, None) for W in (1, 2)), (H.B(1, 0, r=0, cap=60),), 60, "n3-")
    specs4 = specs(4, ("", "a", "d"))
    T += H.chunk((H.kwt(spec=s, W=1 + j % 3, fails={i: "E" for i in f}, max_errors=(None, 0)[(j // 3) % 2], scheduler=SCHEDS[(j // 6) % 2])
                  for j, s in enumerate(specs4) for f in subsets(calls(s), lo=0, hi=1)), (H.B(0, 0),), 600, "n4-")
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc, max_errors=m, fails=f) for s in big_specs() for W in (1, 3, None) for sc in SCHEDS
                  for m, f in ((0, {}), (0, {5: "E"}), (None, {0: "E", 7: "B"}))), (H.B(1, 0, p=0, cap=30),), 6, "big-")
    if not quick:
        T += H.chunk(fail_cases(names, (2, 3), "EB", (0, 1, None), hi=3, scheds=SCHEDS), (H.B(1, 1, cap=3000),), 4, "conct-")
        T += H.chunk(shape_cases(SMALL, Ws=(2, 3)), (H.B(1, 1, ops="all", cap=60000),), 1, "opt-")
        T += H.chunk(shape_cases(("pair", "join", "vialit"), Ws=(2,), scheds=(None,)), (H.B(2, 0, b=0, ops="exec", cap=60000),), 1, "op2-")
        T += H.chunk(reg_cases(REGS), (H.B(1, 1, cap=5000),), 1, "regt-")
    return T


def _lit_cycles(n):
    """Cycles of literals hanging off a call in the different possible places."""
    for cyc in ((1, 2), (2, 3), (1, 2, 3), (1,), (2,), (3,)):
        ring = [(a, b, "d") for a, b in zip(cyc, cyc[1:] + cyc[:1])]
        if any(x >= n for x in cyc):
            continue
        last = n - 1
        others = [x for x in range(n) if x not in cyc]
        for o in others:
            yield tuple(sorted(set(ring + [(cyc[0], o, "d")])))
            yield tuple(sorted(set(ring + [(o, cyc[-1], "d")])))
        if last not in cyc:
            yield tuple(sorted(set(ring + [(0, cyc[0], "d"), (cyc[-1], last, "d")])))


def coverage(total, tier=None):
    c = H.coverage(total)
    c["cyclic_plans_enumerated"] = total.n.get("cyclic_plans", 0)
    return c


def free(r, tier, seed):
    import threading

    n0 = threading.active_count()
    cs = list(shape_cases(SMALL + MID, Ws=(1, 2, 3)))
    cs += list(fail_cases(SMALL, (1, 2), "E"))

    def orc(case, s):
        m = oracle(case, s)
        if m is None and threading.active_count() > n0:
            return f"{threading.active_count() - n0} thread(s) alive after run returned"
        return m

    return H.free_traces(r, orc, cs, reps=1 if tier == "quick" else 10)
