"""C14: a dry run touches nothing and returns a faithful, self-contained physical plan."""
import collections

from checks import histcommon as HC
from checks.stored import R as REGS
from checks.stored import enum_reg_specs, states
from mc import harness as H
from mc import hist, plans, sched, worlds
from mc.core import R

LEVEL = "model_checking"
ASSUMPTIONS = HC.ASSUMPTIONS + ["calls and stores are the only things that can be touched; a run that fails for want of a source is compared on failing"]
DRY_OK = {"m", "M", "ret"}


def topo_orders(g, cap):
    """Topological orders of a graph, at most cap of them (first in both lexicographic directions, then the rest)."""
    nodes = list(g.nodes())
    pos = {n: i for i, n in enumerate(nodes)}
    indeg = {n: len(set(g.predecessors(n))) for n in nodes}
    n_out = 0

    def rec(order, ready):
        nonlocal n_out
        if n_out >= cap:
            return
        if not ready:
            n_out += 1
            yield list(order)
            return
        for n in sorted(ready, key=pos.get):
            order.append(n)
            nr = [x for x in ready if x is not n]
            for s in set(g.successors(n)):
                indeg[s] -= 1
                if not indeg[s]:
                    nr.append(s)
            yield from rec(order, nr)
            for s in set(g.successors(n)):
                indeg[s] += 1
            order.pop()

    yield from rec([], [n for n in nodes if not indeg[n]])


def last_first(g):
    """The topological order that always takes the newest ready node."""
    nodes = list(g.nodes())
    pos = {n: i for i, n in enumerate(nodes)}
    indeg = {n: len(set(g.predecessors(n))) for n in nodes}
    ready = [n for n in nodes if not indeg[n]]
    out = []
    while ready:
        n = max(ready, key=pos.get)
        ready.remove(n)
        out.append(n)
        for s in set(g.successors(n)):
            indeg[s] -= 1
            if not indeg[s]:
                ready.append(s)
    return out


def interpret(plan, order):
    """Executes every node of a physical plan by itself, using nothing of uberjob but the graph's data."""
    g = plan.graph
    val = {}
    for n in order:
        if type(n).__name__ == "Literal":
            val[n] = n.value
            continue
        args, kw = {}, {}
        for u, _, k in g.in_edges(n, keys=True):
            if type(k).__name__ == "PositionalArg":
                args[k.index] = val[u]
            elif type(k).__name__ == "KeywordArg":
                kw[k.index if k.name is None else k.index] = (k.name, val[u])
        val[n] = n.fn(*[args[i] for i in range(len(args))], **dict(kw[i] for i in sorted(kw)))
    return val


def touched(log):
    return [e for e in log if e[0] not in DRY_OK]


def counts(log):
    c = collections.Counter(e[:2] for e in log if e[0] in "srw" and len(e) == 3)
    c.update(("side", e[1]) for e in log if e[0] == "W" and len(e) == 3)
    c.update(("x", e[1]) for e in log if e[0] == "extra")
    return c


def vals(after, before):
    return [(v, t != t0) for (v, t), (_, t0) in zip(after, before)]


class Extra:
    """A transform_physical that appends a call to the plan and redirects the output to it."""

    def __init__(self, w):
        self.w = w

    def __call__(self, plan, node):
        def extra(x=None):
            self.w.log.append(("extra", 0))
            return ("extra", x)

        n = plan.call(extra, node) if node is not None else plan.call(extra)
        return plan, n


def compare(h, r, st, out, fresh, o, transform, orders):
    """One (state, output, fresh_time): dry run, then the physical plan by itself, against the real outcome o."""
    import uberjob

    d = hist.Hist(h.spec, reg_rev=h.args["reg_rev"], order=None)
    kw = {"transform_physical": Extra(d.world)} if transform else {}
    x = d.run(st, out, fresh, dry_run=True, **kw)
    r.n["dry_runs"] += 1
    bad = touched(x.log)
    if bad:
        return f"a dry run (output {out}, fresh {fresh}) performed {bad}"
    if x.after != st:
        return f"a dry run changed the stores from {st} to {x.after}"
    if x.error is not None:
        if o.error is None:
            return f"the dry run raised {x.error!r} but the real run succeeds"
        return None
    if type(x.result) is not tuple or len(x.result) != 2 or type(x.result[0]) is not uberjob.Plan:
        return f"a dry run returned {x.result!r}"
    phys, node = x.result
    if node is not None and not phys.graph.has_node(node):
        return "the output node is not a node of the returned plan"
    if (node is None) != (out[0] == "none" and not transform):
        return f"the output node is {node!r} for output {out}"
    # nothing of the original may be needed any more
    d.world.plan.graph.clear()
    d.world.registry.mapping.clear()
    want_c = counts(o.log)

    def same(what, log, result, err, after):
        r.n["plan_executions"] += 1
        if o.error is not None:
            if err is None:
                return f"{what} succeeded but the real run raised {o.error!r}"
            if type(getattr(o.error, "__cause__", None)) is not type(err if what == "interpreting it" else err.__cause__):
                return f"{what} raised {err!r} from {err.__cause__!r}, the real run {o.error!r} from {o.error.__cause__!r}"
            return None
        if err is not None:
            return f"{what} raised {err!r} (cause {err.__cause__!r}); the real run succeeded"
        c = counts(log)
        if c != want_c:
            return f"{what} performed {sorted(c.elements())}; the real run performed {sorted(want_c.elements())}"
        if result != o.result:
            return f"{what} yielded {result!r}; the real run {o.result!r}"
        if vals(after, st) != vals(o.after, st):
            return f"{what} left the stores as {after}; the real run as {o.after}"
        return None

    for W, sc in ((1, None), (2, None), (1, "random")):
        def go():
            ns = list(phys.graph.nodes())
            res = uberjob.run(phys, output=[[n for n in ns], node], progress=None, max_workers=W, scheduler=sc)
            if len(res[0]) != len(ns):
                raise AssertionError("lost nodes")
            return res[1]
        y = d.run(st, out, fresh, fn=go)
        m = same("running its plan", y.log, y.result, y.error, y.after)
        if m:
            return m
    g = phys.graph
    seqs = [last_first(g), *topo_orders(g, orders)]
    for order in seqs:
        if len(order) != g.number_of_nodes():
            return "the returned plan has a cycle"
        d.world.set(st, max(h.now(st), fresh or 0))
        d.world.reset_run()
        err = res = None
        try:
            v = interpret(phys, order)
            res = None if node is None else v[node]
        except Exception as e:
            err = e
        m = same("interpreting it", d.world.log, res, err, d.world.get())
        if m:
            return m + f" (order {[str(n) for n in order]})"
    return None


def mk(h, r):
    orders = h.orders

    def on_run(st, out, fresh, o):
        return compare(h, r, st, out, fresh, o, False, orders)

    def visit(st):
        for out in h.outs[:2]:
            o = h.run(st, out, transform_physical=Extra(h.world))
            m = compare(h, r, st, out, None, o, True, 1)
            if m:
                return "with transform_physical: " + m
        return None

    return {"on_run": on_run, "visit": visit}


def hist_task(task):
    r = R()
    for spec, opts in task[1]:
        o = dict(opts)
        orders = o.pop("orders", 6)

        def mk2(h, rr):
            h.orders = orders
            return mk(h, rr)

        x = HC.search_task((task[0], ((spec, tuple(o.items())),)), mk2)
        for v in x.viol:
            v["data"]["orders"] = orders
        r.absorb(x)
        r.samples = r.samples or x.samples
    return r


# ------------------------------------------------------------------ dry runs under the controlled scheduler
class DCase(worlds.SCase):
    def __init__(self, spec, state=(), mfail=None, **kw):
        if mfail is not None:
            kw["fail"] = {("m", mfail): None}
        super().__init__(spec, state, mpoints=True, **kw)
        self.kw["dry_run"] = True
        self.mfail = mfail
        self.args["mfail"] = mfail
        self.ref = None


def signature(w, res):
    plan, node = res
    g = plan.graph
    num = {n: i for i, n in enumerate(w.nodes)}
    memo = {}

    def sig(n):
        if n not in memo:
            if type(n).__name__ == "Literal":
                v = n.value
                me = ("lit", getattr(v, "i", None) if type(v).__name__.startswith("MemStore") else repr(v))
            else:
                me = ("call", n.fn.__qualname__)
            memo[n] = (num.get(n), me, n.scope, tuple(sorted((repr(k), repr(sig(u))) for u, _, k in g.in_edges(n, keys=True))))
        return memo[n]

    return sorted(repr(sig(n)) for n in g.nodes()), None if node is None else repr(sig(node))


def dry_oracle(c, s):
    bad = [e for e in c.log if e[0] not in DRY_OK | {"raise", "xm"}]
    if bad:
        return f"a dry run performed {bad}"
    for j, t in c.times.items():
        if c.world.stores[j].t != t:
            return f"a dry run changed the modified time of store {j}"
    if s is not None and (s.deadlock or s.livelock):
        return None
    if c.error is not None:
        if c.mfail is not None:
            return None
        return f"a dry run raised {c.error!r}"
    if c.mfail is not None:
        return None
    sg = signature(c.world, c.result)
    if c.ref is None:
        c.ref = sg
    elif sg != c.ref:
        return f"dry runs of the same state returned different plans: {sg} / {c.ref}"
    return None


# ------------------------------------------------------------------ plans without a registry
def plain_task(task):
    import uberjob

    r = R()
    for spec in task[1]:
        n = len(spec[0])
        outs = [("none",), ("lit",), *(("node", i) for i in range(n)), ("list", tuple(range(n))), ("list", (n - 1, 0, n - 1)),
                ("set", (n - 1,)), ("dict", tuple(range(n))), ("nest", (n - 1, 0))]
        for out in outs:
            for reg in (False, True):
                w = worlds.World(spec)
                kw = dict(output=plans.build_out(out, w.nodes), progress=None, max_workers=1, registry=w.registry if reg else None)
                real, err, _ = H.solo(lambda: uberjob.run(w.plan, **kw))
                log = w.log
                w.reset_run()
                dry, derr, _ = H.solo(lambda: uberjob.run(w.plan, dry_run=True, **kw))
                r.n["dry_runs"] += 1
                bad = touched(w.log)
                if bad or derr or err:
                    r.violation(f"dry run of {spec} output {out}: performed {bad}, raised {derr!r} (real run: {err!r})",
                                spec=repr(spec))
                    continue
                phys, node = dry
                w.plan.graph.clear()
                for order in [last_first(phys.graph), *topo_orders(phys.graph, task[2])]:
                    w.reset_run()
                    v = interpret(phys, order)
                    got = None if node is None else v[node]
                    r.n["plan_executions"] += 1
                    if counts(w.log) != counts(log) or got != real:
                        r.violation(f"plan of the dry run of {spec} output {out}: performed {sorted(counts(w.log).elements())} -> {got!r}; "
                                    f"real run {sorted(counts(log).elements())} -> {real!r}", spec=repr(spec))
                        break
                r.n["states"] += 1
                r.n["transitions"] += 2
                r.seen((spec, out, reg))
    return r


def run_task(task):
    if task[0].startswith("sched"):
        return H.run_cases(task, dry_oracle, make=DCase)
    if task[0].startswith("plain"):
        return plain_task(task)
    return hist_task(task)


def replay(r, v):
    import ast

    d = v["data"]
    if "case" in d:
        return H.replay_case(r, v, dry_oracle, DCase)
    spec = ast.literal_eval(d["spec"])
    if "opts" not in d:
        return r.absorb(plain_task(("plain", (spec,), 50)))
    opts = {**ast.literal_eval(d["opts"]), "orders": d.get("orders", 6)}
    r.absorb(hist_task(("replay", ((spec, tuple(opts.items())),))))


def coverage(total, tier=None):
    c = HC.coverage(total)
    c["states"] += total.n.get("choice_points", 0) + total.n.get("executions", 0)
    c["transitions"] += total.n.get("steps", 0)
    c["traces_validated_against_impl"] = total.n.get("runs", 0) + total.n.get("plan_executions", 0) + total.n.get("executions", 0)
    c["explanation"] = ("states reached by histories of real runs, plus schedule-tree nodes of dry runs; from every state every real "
                        "run is compared with the execution of the dry run's plan (by uberjob without a registry and by an "
                        "independent interpreter, in several topological orders), with the original plan and registry emptied")
    return c


def outs_of(spec):
    n = len(spec[0])
    return (("list", tuple(range(n))), ("none",), *(("node", i) for i in range(n)), ("nest", (n - 1, 0)))


def tasks(tier, seed):
    q = tier == "quick"
    T = []
    for n in HC.BIG + HC.MID + HC.SMALL:
        T += HC.chunk([(REGS[n], HC.opt(cap=60 if q else 3000, cuts=n not in HC.BIG, cut_errs=(0,), outs=outs_of(REGS[n]), orders=4 if q else 40,
                                        delete_sources=n in HC.SMALL))], 1, "hist-")
        T += HC.chunk([(REGS[n], HC.opt(cap=40 if q else 3000, cuts=False, outs=outs_of(REGS[n]), orders=2 if q else 20, reg_rev=True, order=1))], 1, "histr-")
    s3 = HC.small_specs(3, "oscyl") + [s for s in HC.small_specs(2, "oscyLl") if "L" in s[0]]
    T += HC.chunk(((s, HC.opt(cap=25 if q else 1000, cuts=True, cut_errs=(0,), outs=outs_of(s)[:3], orders=2 if q else 20)) for s in s3), 8, "hist3-")
    if not q:
        T += HC.chunk(((s, HC.opt(cap=20, cuts=False, freshes=False, outs=outs_of(s)[:2], orders=2)) for s in enum_reg_specs(4, "oscy")), 40, "hist4-")
    allp = lambda spec: ("list", tuple(range(len(spec[0]))))
    cases = []
    for n in ("chain", "fork", "diamond", "dsrcs", "join", "unstored", "litdep", "twosrc"):
        for st in states(REGS[n]):
            for sc in ((None,) if q else (None, "random")):
                cases.append(H.kwt(spec=REGS[n], state=st, W=2, scheduler=sc, out=allp(REGS[n])))
        st = states(REGS[n])[0]
        for j in worlds.writer_of(REGS[n]) or [0]:
            cases.append(H.kwt(spec=REGS[n], state=st, W=2, out=allp(REGS[n]), mfail=j if REGS[n][0][j] in worlds.REG else None))
    T += H.chunk(cases, (H.B(1, 2, b=1, cap=80 if q else 5000),), 6, "sched-")
    shapes = list(dict.fromkeys(plans.SHAPES.values()))
    T += [(f"plain-{i}", tuple(shapes[i:i + 3]), 30 if q else 500) for i in range(0, len(shapes), 3)]
    sm = [s for s in plans.enum_specs(3) if plans.interesting(s)]
    T += [(f"plain3-{i}", tuple(sm[i:i + 20]), 30) for i in range(0, len(sm), 20)]
    return T


def free(r, tier, seed):
    n = 0
    for name in ("chain", "diamond", "dsrcs"):
        for st in states(REGS[name]):
            c = DCase(REGS[name], st, W=3, out=("list", tuple(range(len(REGS[name][0])))))
            for _ in range(3):
                c.reset()
                c.main()
                n += 1
                m = dry_oracle(c, None)
                if m:
                    r.violation(f"free-running: {m}")
    return n
