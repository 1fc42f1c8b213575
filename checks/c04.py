"""C04: each needed call runs exactly once (per allowed attempt) and nothing unneeded runs."""
from collections import Counter

from checks.common import MID, SCHEDS, SMALL, big_specs, calls, shape_cases, specs, subsets
from checks.stored import R as REGS
from checks.stored import by_kind, call_fail_cases, enum_reg_specs, enum_state_cases, make_any, state_cases
from mc import harness as H
from mc import plans

LEVEL = "model_checking"
ASSUMPTIONS = ["thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md"]
coverage = H.coverage


def plain_oracle(case, s):
    starts = Counter(e[1] for e in case.log if e[0] == "s")
    allowed = case.retry or 1
    for i, n in starts.items():
        if n > allowed:
            return f"call {i} executed {n} times (attempts allowed: {allowed})"
    ok_ends = Counter(e[1] for e in case.log if e[0] == "e")
    for i, n in ok_ends.items():
        if n > 1:
            return f"call {i} completed {n} times"
    need = plans.needed(case.spec, plans.out_nodes(case.out))
    extra = set(starts) - need
    if extra and case.error is None:
        return f"calls {sorted(extra)} ran although the output does not depend on them"
    if ("ret",) in case.log:
        if set(ok_ends) != need:
            return f"successful run executed {sorted(ok_ends)} but the output needs {sorted(need)}"
        for i in need:
            if starts[i] != 1 + case.flaky.get(i, 0):
                return f"call {i} executed {starts[i]} times in a successful run"
    return None


def reg_oracle(case, s):
    """With a registry: no call more than once per allowed attempt (C05 judges which calls run)."""
    allowed = case.retry or 1
    for i, n in Counter(e[1] for e in case.log if e[0] == "s").items():
        if n > allowed:
            return f"call {i} executed {n} times (attempts allowed: {allowed})"
    for i, n in Counter(e[1] for e in case.log if e[0] == "e").items():
        if n > 1:
            return f"call {i} completed {n} times"
    return None


oracle = by_kind(plain_oracle, reg_oracle)


def run_task(task):
    return H.run_cases(task, oracle, make=make_any)


def replay(r, v):
    H.replay_case(r, v, oracle, make=make_any)


def out_cases(sp, rich=True, **kw):
    for out in plans.all_outputs(sp, rich=rich):
        yield H.kwt(spec=sp, out=out, **kw)


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    names = SMALL + MID
    T += H.chunk(shape_cases(names, Ws=(2,), scheds=(None,)), (H.B(1, 1, ops="exec", cap=6000),), 1, "op1-")
    T += H.chunk(shape_cases(("join", "parallel", "vialit", "fork"), Ws=(2, 3), scheds=("random",)),
                 (H.B(1, 1, r=0, ops="exec", cap=6000),), 1, "op1r-")
    T += H.chunk(shape_cases(SMALL), (H.B(1, None), H.B(2, 1, cap=1500 if quick else 60000)), 1, "small-")
    T += H.chunk(shape_cases(MID), (H.B(1, 1), H.B(2, 0, cap=1500 if quick else 60000)), 1, "mid-")
    T += H.chunk((c for n in names for sc in SCHEDS for c in out_cases(plans.SHAPES[n], W=2, scheduler=sc)),
                 (H.B(1, 0),), 8, "out-")
    fl = []
    for n in names:
        sp = plans.SHAPES[n]
        for i in calls(sp):
            fl.append(H.kwt(spec=sp, W=2, flaky={i: 1}, retry=2))
            fl.append(H.kwt(spec=sp, W=2, flaky={i: 2}, retry=3, scheduler="random"))
            fl.append(H.kwt(spec=sp, W=3, fails={i: "E"}, retry=3, max_errors=None))
            fl.append(H.kwt(spec=sp, W=2, fails={i: "E"}, max_errors=1))
            fl.append(H.kwt(spec=sp, W=2, fails={i: "B"}, retry=2, max_errors=None))
    T += H.chunk(fl, (H.B(1, 0),), 8, "retry-")
    specs3 = [s for n in (2, 3) for s in specs(n, ("", "a", "k", "d", "ad", "aa"))]
    T += H.chunk((c for s in specs3 for c in out_cases(s, rich=False, W=2)), (H.B(1, 0),), 40, "n3-")
    specs4 = specs(4, ("", "a", "d"))
    T += H.chunk((c for i, s in enumerate(specs4) for c in out_cases(s, rich=not quick, W=2, scheduler=SCHEDS[i % 2])),
                 (H.B(0, 0),), 400, "n4-")
    for order in (1, 2):
        T += H.chunk((c for n in names for c in out_cases(plans.SHAPES[n], W=2, order=order, dep_rev=True)), (H.B(0, 1),), 8,
                     f"order{order}-")
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc, out=o) for s in big_specs() for W in (1, None) for sc in SCHEDS
                  for o in (("list", plans.sinks(s)), ("node", len(s[0]) // 2))),
                 (H.B(1, 0, p=0, b=1, r=0, cap=60),), 2, "big-")
    # with a registry
    T += H.chunk(state_cases(tuple(REGS), scheds=(None,)), (H.B(1, 0, r=0),), 12, "S-")
    T += H.chunk(state_cases(("chain", "fork", "join", "tail"), Ws=(2,), scheds=("random",)), (H.B(1, 1, p=0),), 4, "Sr-")
    T += H.chunk(call_fail_cases(tuple(REGS), retries=(None, 2, 3)), (H.B(0, 1),), 60, "Sf-")
    rs3 = [s for n in (2, 3) for s in enum_reg_specs(n, "oscylL")]
    T += H.chunk(enum_state_cases(rs3, W=2), (H.B(0, 1),), 120, "S3-")
    if not quick:
        T += H.chunk((H.kwt(spec=s, W=3, scheduler=sc) for s in specs3 for sc in SCHEDS), (H.B(1, None), H.B(2, 0)), 6, "n3t-")
        T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc) for s in specs4 for W in (2, 3) for sc in SCHEDS), (H.B(1, 0),), 20, "n4t-")
        T += H.chunk(shape_cases(SMALL, Ws=(2, 3)), (H.B(1, 1, ops="all", cap=60000),), 1, "opt-")
        T += H.chunk(shape_cases(("join", "parallel", "vialit"), Ws=(2,), scheds=(None,)), (H.B(2, 0, b=0, ops="exec", cap=60000),), 1, "op2-")
        T += H.chunk((H.kwt(spec=s, W=2, fails={i: "E" for i in f}, max_errors=m, retry=rt) for s in specs3
                      for f in subsets(calls(s)) for m in (0, 1, None) for rt in (None, 2)), (H.B(1, 0),), 40, "failt-")
    return T


def free(r, tier, seed):
    cs = list(shape_cases(SMALL + MID, Ws=(1, 2, 3)))
    cs += [c for n in SMALL + MID for c in out_cases(plans.SHAPES[n], W=2)]
    n = H.free_traces(r, oracle, cs, reps=2 if tier == "quick" else 20)
    return n + H.free_traces(r, oracle, list(state_cases(tuple(REGS), Ws=(3,), scheds=(None,))), make=make_any, reps=1)
