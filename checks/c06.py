"""C06: nothing downstream of a failed call runs; the raised error names a real failure."""
from checks.common import MID, SCHEDS, SMALL, big_specs, calls, shape_cases, specs, subsets
from checks.stored import R as REGS
from checks.stored import by_kind, call_fail_cases, live_calls, make_any
from mc import harness as H
from mc import oddexc, plans
from mc.oddvalues import catalog

LEVEL = "model_checking"
ASSUMPTIONS = ["thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md"]
coverage = H.coverage


def plain_oracle(case, s):
    from uberjob import CallError

    allowed = case.retry or 1
    failed = []  # calls whose last allowed attempt raised, in order
    tries = {}
    for e in case.log:
        if e[0] == "s":
            bad = case.canc[e[1]] & set(failed)
            if bad:
                return f"call {e[1]} started although call(s) {sorted(bad)} upstream of it had failed"
        elif e[0] == "x":
            tries[e[1]] = tries.get(e[1], 0) + 1
            if tries[e[1]] >= allowed or not isinstance(case.exc[e[1]][-1], Exception):
                failed.append(e[1])
    if s is not None and (s.deadlock or s.livelock):
        return None  # C07's business
    if not failed:
        if case.error is not None:
            return f"no call failed but run raised {case.error!r}"
        return None
    err = case.error
    if err is None:
        return f"calls {failed} failed but run returned normally"
    if type(err) is not CallError:
        return f"calls {failed} failed but run raised {type(err).__name__}: {err!r}"
    named = [i for i in failed if case.nodes[i] is err.call]
    if not named:
        return f"CallError names {err.call!r}, which is not a call that failed ({failed})"
    i = named[0]
    if err.__cause__ is not case.exc[i][-1]:
        return f"CallError.__cause__ is {err.__cause__!r}, not the exception object raised by call {i}"
    if case.W == 1 and i != failed[0]:
        return f"serial run: CallError names call {i} but the first call that failed is {failed[0]}"
    return None


def reg_oracle(case, s):
    """The same with a registry (the only failures injected are those of calls)."""
    from uberjob import CallError

    live = live_calls(case)
    if live is None or any(e[0] == "xr" for e in case.log):  # a store was read that has no value: not a failure of a call
        return None
    allowed = case.retry or 1
    failed, tries = [], {}
    for e in case.log:
        if e[0] == "s":
            bad = live[e[1]] & set(failed)
            if bad:
                return f"call {e[1]} started although call(s) {sorted(bad)} upstream of it had failed"
        elif e[0] == "xs":
            tries[e[1]] = tries.get(e[1], 0) + 1
            if tries[e[1]] >= allowed:
                failed.append(e[1])
    if s is not None and (s.deadlock or s.livelock):
        return None
    err = case.error
    if not failed:
        return f"no call failed but run raised {err!r}" if err is not None else None
    if err is None:
        return f"calls {failed} failed but run returned normally"
    if type(err) is not CallError:
        return f"calls {failed} failed but run raised {type(err).__name__}: {err!r}"
    named = [i for i in failed if case.world.nodes[i] is err.call]
    if not named:
        return f"CallError names {err.call!r}, which is not a call that failed ({failed})"
    if err.__cause__ is not [e for k, j, e in case.world.excs if j == named[0]][-1]:
        return f"CallError.__cause__ is {err.__cause__!r}, not the exception object raised by call {named[0]}"
    if case.W == 1 and named[0] != failed[0]:
        return f"serial run: CallError names call {named[0]} but the first call that failed is {failed[0]}"
    return None


oracle = by_kind(plain_oracle, reg_oracle)


def run_task(task):
    return H.run_cases(task, oracle, make=make_any)


def replay(r, v):
    H.replay_case(r, v, oracle, make=make_any)


KINDS = "EBKSNIMVP"
ODD = oddexc.KINDS


def fail_sets(names, Ws, kinds, max_errors=(0, 1, None), hi=2, scheds=(None,), **kw):
    for n in names:
        sp = plans.SHAPES[n]
        for f in subsets(calls(sp), hi=hi):
            for k in kinds:
                for W in Ws:
                    for m in max_errors:
                        for sc in scheds:
                            yield H.kwt(spec=sp, W=W, max_errors=m, fails={i: k for i in f}, scheduler=sc, **kw)


def tasks(tier, seed):
    quick = tier == "quick"
    names = SMALL + MID
    T = []
    T += H.chunk(fail_sets(("pair", "join", "diamond", "vialit", "twochains"), (2,), "E", (0, None), hi=2),
                 (H.B(1, 0, ops="exec", cap=6000),), 2, "op1-")
    T += H.chunk(fail_sets(("pair", "join"), (2,), "PB", (0, None), hi=2), (H.B(1, 0, ops="exec", cap=6000),), 1, "op1k-")
    T += H.chunk(fail_sets(("pair", "join", "join3", "diamond", "twochains"), (2, 3), "E", (0, 1, None), hi=3),
                 (H.B(1, None, cap=1000 if quick else 20000), H.B(2, 0, cap=500 if quick else 10000)), 2, "conc-")
    T += H.chunk(fail_sets(names + ("chain2", "single", "pair"), (1,), KINDS, (0, 1, None), hi=2, scheds=SCHEDS), (H.B(0, 0, r=1),), 60, "serial-")
    T += H.chunk(fail_sets(names, (2,), KINDS, (0, None), hi=1), (H.B(1, 0, p=0),), 20, "kinds-")
    T += H.chunk(fail_sets(names, (2,), "EB", (0, None), hi=2, retry=2), (H.B(1, 0),), 12, "retry-")
    T += H.chunk((c for odd in catalog() for c in fail_sets(("single", "join"), (1, 2), "EB", (0, None), hi=1, odd=odd)), (H.B(0, 0),), 24, "scopes-")
    T += H.chunk(fail_sets(("single", "pair", "chain3", "join", "vialit"), (1, 2), ODD, (0, None), hi=1), (H.B(1, 0, p=0),), 60, "odd-")
    T += H.chunk(fail_sets(("single", "join"), (1, 2), ODD, (0, None), hi=1, retry=2), (H.B(0, 0),), 60, "oddretry-")
    T += H.chunk((H.kwt(spec=plans.SHAPES["pair"], W=W, max_errors=m, fails={0: a, 1: b}) for a in ODD + "EBK" for b in ODD[:8] + "EBK"
                  for W in (1, 2) for m in (0, 1, None)), (H.B(0, None),), 60, "oddpair-")
    specs3 = [s for n in (2, 3) for s in specs(n, ("", "a", "d", "ad"))]
    T += H.chunk((H.kwt(spec=s, W=2, scheduler=SCHEDS[(len(f) + j) % 2], max_errors=m, fails={i: "E" for i in f})
                  for j, s in enumerate(specs3) for f in subsets(calls(s)) for m in (0, None)), (H.B(1, 0, r=0),), 30, "n3-")
    T += H.chunk((H.kwt(spec=s, W=1, scheduler=sc, max_errors=m, fails={i: "E" for i in f})
                  for s in specs3 for f in subsets(calls(s)) for m in (0, 1, None) for sc in SCHEDS), (H.B(1, 0),), 200, "n3s-")
    specs4 = specs(4, ("", "a", "d"))
    T += H.chunk((H.kwt(spec=s, W=1 + j % 2, max_errors=(None, 1)[(j // 2) % 2], fails={i: "E" for i in f}, scheduler=SCHEDS[(j // 4) % 2])
                  for j, s in enumerate(specs4) for f in subsets(calls(s), hi=2)), (H.B(0, 0),), 600, "n4-")
    T += H.chunk((H.kwt(spec=s, W=W, max_errors=m, fails={f: "E", f + 3: "V"}) for s in big_specs() for W in (1, 3)
                  for m in (0, 2, None) for f in (0, 5, 8)), (H.B(1, 0, p=0, cap=40),), 8, "big-")
    # with a registry
    T += H.chunk(call_fail_cases(tuple(REGS), retries=(None, 2), Ws=(1, 2)), (H.B(0, 1),), 120, "S-")
    T += H.chunk(call_fail_cases(("chain", "mid", "join", "forkc", "unstored", "depcall", "dsrcs", "litdep", "tail"), max_errors=(None,)),
                 (H.B(1, 0),), 12, "Sp-")
    if not quick:
        T += H.chunk(fail_sets(names, (2, 3), "EB", (0, 1, None), hi=3, scheds=SCHEDS), (H.B(1, 1, cap=3000),), 4, "conct-")
        T += H.chunk(fail_sets(SMALL, (2, 3), "EP", (0, 1, None), hi=2, scheds=SCHEDS), (H.B(1, 0, ops="all", cap=20000),), 1, "opt-")
        T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc, max_errors=m, fails={i: "E" for i in f}, retry=rt)
                      for s in specs3 for f in subsets(calls(s)) for m in (0, 1, None) for W in (2, 3) for sc in SCHEDS for rt in (None, 2)),
                     (H.B(1, 0, cap=400),), 40, "n3t-")
    return T


def free(r, tier, seed):
    cs = list(fail_sets(SMALL + MID, (1, 2, 3), "EP", (0, None), hi=2))
    cs += list(call_fail_cases(tuple(REGS), Ws=(3,), max_errors=(None,)))
    return H.free_traces(r, oracle, cs, make=make_any, reps=1 if tier == "quick" else 10)
