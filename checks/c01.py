"""C01: a call never starts before everything it depends on has finished successfully."""
from mc import harness as H
from mc import plans
from checks.common import MID, SCHEDS, SMALL, big_specs, shape_cases
from checks.stored import R as REGS
from checks.stored import by_kind, call_fail_cases, enum_reg_specs, enum_state_cases, live_calls, make_any, state_cases

LEVEL = "model_checking"
ASSUMPTIONS = [
    "scheduling points: every lock acquisition/condition wait/thread start, every call-body point, and (bytecode passes) "
    "every attribute/subscript/cell/call opcode of uberjob code run by worker threads; deviation bounds as in DESIGN.md",
]
coverage = H.coverage


def plain_oracle(case, s):
    ended = set()
    for e in case.log:
        if e[0] == "s":
            missing = case.canc[e[1]] - ended
            if missing:
                return f"call {e[1]} started before call(s) {sorted(missing)} it depends on finished successfully"
        elif e[0] == "e":
            ended.add(e[1])
    return None


def reg_oracle(case, s):
    """The same with a registry: what lies behind an up-to-date stored value does not have to run."""
    live = live_calls(case)
    if live is None:
        return None
    ended = set()
    for e in case.log:
        if e[0] == "s":
            missing = live[e[1]] - ended
            if missing:
                return f"call {e[1]} started before call(s) {sorted(missing)} it depends on finished successfully"
        elif e[0] == "e":
            ended.add(e[1])
    return None


oracle = by_kind(plain_oracle, reg_oracle)


def run_task(task):
    return H.run_cases(task, oracle, make=make_any)


def replay(r, v):
    H.replay_case(r, v, oracle, make=make_any)


def fail_cases(names, Ws=(2,), scheds=SCHEDS):
    for n in names:
        spec = plans.SHAPES[n]
        for i, k in enumerate(spec[0]):
            if k != "c":
                continue
            for W in Ws:
                for sc in scheds:
                    yield H.kwt(spec=spec, W=W, scheduler=sc, fails={i: "E"}, max_errors=None)
                    yield H.kwt(spec=spec, W=W, scheduler=sc, fails={i: "E"}, max_errors=1)
                    yield H.kwt(spec=spec, W=W, scheduler=sc, flaky={i: 1}, retry=2)


def lit_specs5():
    """Two literals and three calls, literals joined to each other and to calls in every way."""
    for ks in ("cllcc", "clclc", "ccllc", "lclcc", "lccll"):
        for s in plans.enum_specs(5, ("", "a", "d"), kinds=ks):
            if 4 <= len(s[1]) <= 5 and any(s[0][i] == s[0][j] == "l" for i, j, _ in s[1]):
                yield s


def tasks(tier, seed):
    H_, P = H, plans
    T = []
    quick = tier == "quick"
    T += H.chunk(shape_cases(SMALL + MID, scheds=(None,)), (H.B(1, 1, ops="exec", cap=6000),), 1, "op1-")
    T += H.chunk(shape_cases(("join", "parallel", "vialit"), Ws=(2,), scheds=("random",)),
                 (H.B(1, 1, r=0, ops="all", cap=6000),), 1, "op1r-")
    T += H.chunk(shape_cases(SMALL), (H.B(1, None), H.B(2, 1, cap=3000 if quick else 60000)), 1, "small-")
    T += H.chunk(shape_cases(MID), (H.B(1, 1), H.B(2, 0, cap=2500 if quick else 60000)), 1, "mid-")
    T += H.chunk(fail_cases(SMALL + MID), (H.B(1, 0),), 4, "fail-")
    for order in (1, 2):
        T += H.chunk(shape_cases(MID + SMALL, Ws=(2,), order=order, dep_rev=True), (H.B(1, 0),), 4, f"order{order}-")
    specs3 = [s for n in (2, 3) for s in P.enum_specs(n, ("", "a", "k", "d", "ad", "aa")) if P.interesting(s)]
    T += H.chunk((H.kwt(spec=s, W=2, scheduler=sc) for s in specs3 for sc in SCHEDS), (H.B(1, 1, r=0 if quick else 1),), 12, "n3-")
    specs4 = [s for s in P.enum_specs(4, ("", "a", "d")) if P.interesting(s)]
    T += H.chunk((H.kwt(spec=s, W=2 + i % 2, scheduler=SCHEDS[i % 2]) for i, s in enumerate(specs4)),
                 (H.B(0, 1),), 60, "n4-")
    # literals that stay in the executed graph because they are requested too
    T += H.chunk((H.kwt(spec=s, W=2 + i % 2, scheduler=SCHEDS[i % 2], out=o) for i, s in enumerate(specs3 + specs4) if "l" in s[0]
                  for o in (("list", tuple(range(len(s[0])))), ("list", tuple(j for j, k in enumerate(s[0]) if k == "l" or j in P.sinks(s))))),
                 (H.B(0, 1), H.B(1, 0, p=0)), 40, "lits-")
    T += H.chunk((H.kwt(spec=s, W=2, scheduler=SCHEDS[i % 2]) for i, s in enumerate(lit_specs5()) if not quick or i % 3 == seed % 3),
                 (H.B(0, 1),), 60, "lits5-")
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc) for s in big_specs() for W in (1, 3, None) for sc in SCHEDS),
                 (H.B(1, 0, p=0, cap=40), H.B(1, 0, p=1, b=0, r=0, cap=60)), 1, "big-")
    # with a registry
    T += H.chunk(state_cases(tuple(REGS), scheds=(None,)), (H.B(1, 0, r=0),), 12, "S-")
    T += H.chunk(state_cases(tuple(REGS), Ws=(3,), scheds=("random",), reg_rev=True, order=1), (H.B(0, 1),), 30, "Sr-")
    T += H.chunk(call_fail_cases(tuple(REGS), retries=(None, 2), max_errors=(None,)), (H.B(0, 1),), 60, "Sf-")
    rs3 = [s for n in (2, 3) for s in enum_reg_specs(n, "oscylL")]
    T += H.chunk(enum_state_cases(rs3, W=2), (H.B(0, 1),), 120, "S3-")
    if not quick:
        rs4 = list(enum_reg_specs(4, "oscL", ("", "a", "d")))
        T += H.chunk(enum_state_cases(rs4, W=2), (H.B(0, 0),), 600, "S4-")
        T += H.chunk((H.kwt(spec=s, W=3, scheduler=sc) for s in specs3 for sc in SCHEDS), (H.B(1, None), H.B(2, 0)), 6, "n3t-")
        T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc) for s in specs4 for W in (2, 3) for sc in SCHEDS), (H.B(1, 1, cap=800),), 20, "n4t-")
        T += H.chunk(shape_cases(SMALL, Ws=(2, 3, 4)), (H.B(1, 1, ops="all", cap=60000),), 1, "opt-")
        T += H.chunk(shape_cases(("join", "parallel", "vialit"), Ws=(2,), scheds=(None,)), (H.B(2, 0, b=0, ops="exec", cap=60000),), 1, "op2-")
    return T


def free(r, tier, seed):
    cs = list(shape_cases(SMALL + MID, Ws=(1, 2, 3))) + list(fail_cases(SMALL))
    n = H.free_traces(r, oracle, cs, reps=3 if tier == "quick" else 30)
    return n + H.free_traces(r, oracle, list(state_cases(tuple(REGS), Ws=(3,), scheds=(None,))), make=make_any, reps=1)
