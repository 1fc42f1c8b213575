"""C09: rebuilt stored values are written, then read back, before downstream use."""
from checks.stored import R, enum_reg_specs, live_ancestors, regs, state_cases, states
from mc import harness as H
from mc import plans, worlds

LEVEL = "model_checking"
ASSUMPTIONS = [
    "stores return a fresh (normalised) object on read; every modified time is later than the previous write",
    "thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md",
]
coverage = H.coverage


def make(**kw):
    c = worlds.SCase(**kw)
    c.bad_arg = None
    kinds, edges = c.spec
    argsrc = {}
    for j in range(len(kinds)):
        a, k = [], {}
        for i, jj, kk in edges:
            if jj == j:
                for x, ch in enumerate(kk):
                    if ch == "a":
                        a.append(i)
                    elif ch == "k":
                        k[f"k{i}_{x}"] = i
        argsrc[j] = a, k
    w = c.world

    def from_store(i, v):
        return type(v) is worlds.Rd and v.i == i and any(v is g for g in w.given)

    def hook(kind, j, args, kwargs):
        if kind != "s":
            return
        a, k = argsrc[j]
        for i, v in [*zip(a, args), *((i, kwargs.get(n)) for n, i in k.items())]:
            if kinds[i] in worlds.REG:
                if not from_store(i, v):
                    c.bad_arg = f"call {j} received {v!r} for stored node {i}, not the object its store's read returned"
            elif type(v) is worlds.Rd:
                c.bad_arg = f"call {j} received a store value for unstored node {i}"

    w.hook = hook
    c.from_store = from_store
    return c


def oracle(case, s):
    spec = case.spec
    kinds, edges = spec
    anc = plans.ancestors(spec)
    log = case.log
    if case.bad_arg:
        m, case.bad_arg = case.bad_arg, None
        return m
    pos = {}
    for p, e in enumerate(log):
        if len(e) >= 2:
            pos.setdefault((e[0], e[1]), p)
    stale, amb = worlds.stale_set(spec, case.times, case.fresh)
    if amb:
        return None
    rebuilt = {j for j in range(len(kinds)) if kinds[j] in worlds.STORED and ("w", j) in pos}
    ok = log and log[-1] == ("ret",)
    if ok:
        for j in rebuilt:
            if ("W", j) not in pos:
                return f"stored value {j}: the write never completed but the run succeeded"
            for d in range(len(kinds)):
                if kinds[d] in worlds.STORED and j in anc[d]:
                    if ("W", d) not in pos:
                        return f"stored value {j} was rebuilt but {d}, downstream of it, was not"
    for j in rebuilt:
        for d in rebuilt:
            if j in anc[d] and not (("W", j) in pos and pos["W", j] < pos["w", d]):
                return f"stored value {d} was written before the write of {j}, upstream of it, completed"
    # consumers
    for p, e in enumerate(log):
        if e[0] != "s":
            continue
        c = e[1]
        for i, jj, kk in edges:
            if jj != c or kinds[i] not in worlds.REG:
                continue
            uses = kk.replace("d", "")
            if kinds[i] in worlds.STORED and i in stale:
                if not pos.get(("W", i), 1e9) < p:
                    return f"call {c} started before stored value {i} it depends on was written"
            if uses and not pos.get(("R", i), 1e9) < p:
                return f"call {c} started before the value of {i} it consumes was read"
        for i in anc[c]:
            if kinds[i] in worlds.STORED and i in stale and not pos.get(("W", i), 1e9) < p:
                return f"call {c} started before stored value {i} upstream of it was written"
    for (k, j), p in pos.items():
        if k != "r":
            continue
        if kinds[j] in worlds.STORED and ("w", j) in pos and not pos.get(("W", j), 1e9) < p:
            return f"store {j} was read before its new value was written"
        if kinds[j] in worlds.STORED and j in stale and ("W", j) not in pos:
            return f"store {j} is out of date and was read without having been rewritten"
        if kinds[j] == "y" and j in stale:
            for i in live_ancestors(spec, j, stale):
                need = ("W", i) if kinds[i] in worlds.STORED else ("e", i)
                if kinds[i] in worlds.CALLS and not pos.get(need, 1e9) < p:
                    return f"dependent source {j} was read before {need} of a call it depends on"
    if ok and case.out[0] == "list":
        for i, v in zip(case.out[1], case.result):
            if kinds[i] in worlds.REG and not case.from_store(i, v):
                return f"output for stored node {i} is {v!r}, not what its store's read returned"
    if ok and case.out[0] == "node" and kinds[case.out[1]] in worlds.REG and not case.from_store(case.out[1], case.result):
        return f"output is {case.result!r}, not what the store's read returned"
    return None


def run_task(task):
    return H.run_cases(task, oracle, make=make)


def replay(r, v):
    H.replay_case(r, v, oracle, make=make)


ALL = tuple(R)
CORE = ("chain", "mid", "fork", "join", "dsrcs", "dsrcst", "depcall", "litdep", "slitdep", "both", "dsrcc", "unstored")


def nodes_out(spec):
    return [("list", tuple(range(len(spec[0])))), *(("node", i) for i in range(len(spec[0]))), ("none",)]


def enum_cases(specs, scheds=(None,), **kw):
    for sp in specs:
        for st in states(sp):
            for sc in scheds:
                yield H.kwt(spec=sp, state=st, scheduler=sc, out=("list", tuple(range(len(sp[0])))), **kw)


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    T += H.chunk(state_cases(("chain", "both", "dsrcs", "slit"), scheds=(None,)), (H.B(1, 0, ops="exec", cap=4000),), 1, "op-")
    T += H.chunk(state_cases(ALL, Ws=(2,), scheds=(None,)), (H.B(1, 0),), 4, "all-")
    T += H.chunk(state_cases(ALL, Ws=(2,), scheds=("random",)), (H.B(1, 0, p=0),), 4, "allr-")
    T += H.chunk(state_cases(CORE, Ws=(2, 3), scheds=(None,)), (H.B(0, 3, cap=1500),), 4, "core-")
    T += H.chunk(state_cases(CORE, Ws=(2,), scheds=("random",)), (H.B(1, 1, p=0, b=0),), 4, "corer-")
    T += H.chunk(state_cases(ALL, Ws=(1, 2), scheds=(None,), outs=nodes_out), (H.B(0, 1),), 60, "outs-")
    T += H.chunk(state_cases(ALL, Ws=(2,), scheds=(None,), reg_rev=True, order=1), (H.B(0, 1),), 30, "rev-")
    T += H.chunk(state_cases(ALL, Ws=(2,), scheds=(None,), reg_rev=True, order=2, fresh=50), (H.B(0, 1),), 30, "fresh-")
    s3 = [s for n in (2, 3) for s in enum_reg_specs(n, "oscylL")]
    T += H.chunk(enum_cases(s3, W=2), (H.B(0, 1),), 120, "n3-")
    if not quick:
        s4 = list(enum_reg_specs(4, "oscy", ("", "a", "d")))
        T += H.chunk(enum_cases(s4, W=2), (H.B(0, 0),), 600, "n4-")
        T += H.chunk(enum_cases(s3, scheds=(None, "random"), W=3), (H.B(1, 0, cap=500),), 30, "n3t-")
        T += H.chunk(state_cases(ALL, Ws=(2, 3)), (H.B(1, None, cap=4000), H.B(2, 0, cap=4000)), 1, "allt-")
        T += H.chunk(state_cases(CORE, Ws=(2,), scheds=(None,)), (H.B(1, 0, ops="exec", cap=6000),), 1, "opt-")
    return T


def free(r, tier, seed):
    cs = list(state_cases(ALL, Ws=(1, 3)))
    return H.free_traces(r, oracle, cs, make=make, reps=1 if tier == "quick" else 10)
