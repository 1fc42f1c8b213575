"""Task plumbing for the HIST checks."""
from checks.stored import R, enum_reg_specs
from mc import hist, plans, worlds
from mc.core import R as Res

ASSUMPTIONS = [
    "deterministic calls; stores return what was last written; logical clock: each write has a later modified time",
    "store values are symbolic terms over source versions, so equality of values is equality of provenance",
]


def coverage(total, tier=None):
    n = total.n
    return {
        "states": n.get("states", 0), "transitions": n.get("transitions", 0),
        "traces_validated_against_impl": n.get("runs", 0),
        "explanation": "explicit-state search: a state is the canonical content and time order of all stores; every run "
                       "transition is executed by the real uberjob.run; searched to a fixpoint unless capped",
    }


SMALL = ("src1", "chain", "deponly", "both", "dsrc", "slit", "join", "litdep", "litarg", "slitdep")
MID = ("mid", "fork", "unstored", "dsrcs", "dsrcst", "dsrcc", "kw", "depcall", "upstored", "dsrcl", "lone", "lone2")
BIG = ("forkc", "chain3", "diamond", "twosrc", "two", "tail")


def search_task(task, mk):
    """task = (label, ((spec, opts), ...)); mk(h) -> callbacks dict for h.search."""
    r = Res()
    _, items = task
    for spec, opts in items:
        opts = dict(opts)
        orders = opts.pop("orders", False)  # every order of the modified times instead of the reachable histories
        h = hist.Hist(spec, **opts)
        try:
            res = h.each_order(mk(h, r)["on_run"]) if orders else h.search(**mk(h, r))
        finally:
            h.close()
        opts = tuple(sorted({**opts, "orders": orders}.items()))
        r.n.update(h.stats)
        r.n["plans"] += 1
        r.max("states_of_one_plan", h.stats["states"])
        if not r.samples:
            last = list(h.parent)[-1] if h.parent else "(all orders)"
            hs, x = [], last
            while h.parent.get(x):
                x, l = h.parent[x]
                hs.append(repr(l))
            r.sample({"plan": spec, "history": hs[::-1], "reached_state": repr(last)})
        if res:
            msg, data = res
            r.violation(f"{msg}; plan {spec} {dict(opts)}; history {data['history']}", key=f"{msg} @ {spec} {sorted(dict(opts).items())}"[:400],
                        spec=repr(spec), opts=repr(dict(opts)), **{k: repr(v) for k, v in data.items()})
    return r


DISK = ("src1", "chain", "both", "deponly", "mid", "join", "fork", "dsrcs", "dsrcst", "litdep", "slit", "slitdep", "kw", "chain3", "diamond")


def disk_tasks(quick, cap, **kw):
    """The same search with the bundled file-backed stores on a real file system, in two assignments of store classes."""
    return chunk([(R[n], opt(disk=True, cap=cap if quick else 20 * cap, reg_rev=v, order=v, **kw)) for n in DISK for v in (0, 1)], 1, "disk-")


def opt(**kw):
    return tuple(sorted(kw.items()))


def chunk(items, size, label):
    items = list(items)
    return [(f"{label}{i}", tuple(items[i:i + size])) for i in range(0, len(items), size)]


def small_specs(n, kinds="oscy", edges=("", "a", "d")):
    return [s for k in range(1, n + 1) for s in enum_reg_specs(k, kinds, edges)]


def replay_with(run_task):
    def replay(r, v):
        import ast

        d = v["data"]
        opts = tuple(ast.literal_eval(d["opts"]).items())
        r.absorb(run_task(("replay", ((ast.literal_eval(d["spec"]), opts),))))

    return replay
