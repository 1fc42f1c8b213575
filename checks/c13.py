"""C13: run, dry_run and render never modify the Plan or Registry they are given; copies are independent."""
import copy
import itertools

from checks import histcommon as HC
from checks.common import MID, SMALL, shape_cases
from checks.stored import R as REGS
from checks.stored import states
from mc import harness as H
from mc import hist, plans, sched, worlds
from mc.core import R

LEVEL = "model_checking"
ASSUMPTIONS = ["nodes are shared between a plan and its copies by design; 'modified' means the graph, the nodes' attributes, the scopes "
               "and the registry entries",
               "thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md"]


def snap(plan, registry=None):
    try:
        return _snap(plan, registry)
    except Exception as e:  # no longer the graph of a plan
        return [f"{type(e).__name__}: {e}"]


def _snap(plan, registry=None):
    g = plan.graph
    nodes = [(id(n), type(n).__name__, id(getattr(n, "fn", None)), id(getattr(n, "value", None)), repr(getattr(n, "value", None)),
              getattr(n, "scope", None), id(getattr(n, "stack_frame", None)), dict(d)) for n, d in g.nodes(data=True)]
    edges = [(id(u), id(v), repr(k), repr(d)) for u, v, k, d in g.edges(keys=True, data=True)]
    s = [id(g), nodes, edges, getattr(plan, "_scope", None)]
    if registry is not None:
        s.append([(id(n), id(v), id(v.value_store), v.is_source, id(v.stack_frame)) for n, v in registry.mapping.items()])
        s.append([(id(n), id(v)) for n, v in registry.items()])
    return s


def diff(a, b):
    if len(a) != len(b):
        return f"plan beyond recognition ({[x[0] for x in (a, b) if len(x) == 1]})"
    for name, x, y in zip(("graph object", "nodes", "edges", "current scope", "registry entries", "registry items"), a, b):
        if x != y:
            return name
    return None


# ------------------------------------------------------------------ HIST: every run of every history
def mk(h, r):
    w = h.world
    ref = snap(w.plan, w.registry)

    def check(what):
        d = diff(ref, snap(w.plan, w.registry))
        if d:
            return f"{what} changed the {d} of the plan or registry it was given"
        return None

    def visit(st):
        for fresh in h.fresh_values(st)[:2]:
            for out in h.outs:
                o = h.run(st, out, fresh, dry_run=True)
                r.n["dry_runs"] += 1
                m = check(f"a dry run (output {out})")
                if m:
                    return m
                if o.error is None:  # the caller may do what it likes with the physical plan
                    phys, node = o.result
                    phys.graph.clear()
                    m = check("clearing the physical plan")
                    if m:
                        return m
        return None

    def on_run(st, out, fresh, o):
        return check(f"run(output={out}), which {'raised' if o.error else 'succeeded'},")

    def on_cut(st, fresh, lab, o):
        return check(f"run failing at {o.cut}")

    return {"visit": visit, "on_run": on_run, "on_cut": on_cut}


# ------------------------------------------------------------------ several runs at once
class Conc:
    """Several threads run, dry-run and render the same plan at the same time under the controlled scheduler."""

    def __init__(self, spec, state=None, jobs=("run", "run"), W=1, scheduler=None, order=0, inside=False):
        self.spec, self.jobs, self.W, self.scheduler = spec, jobs, W, scheduler
        self.state = state
        self.inside = inside  # the main thread is in one of the plan's scopes all the time
        self.args = dict(spec=spec, state=state, jobs=jobs, W=W, scheduler=scheduler, inside=inside)
        self.world = worlds.World(spec, order=order)
        self.out = ("list", tuple(range(len(spec[0]))))
        self.ref = snap(self.world.plan, self.world.registry)
        src = {j: ("src", j, 1) for j, k in enumerate(spec[0]) if k in worlds.SOURCES}
        sc = worlds.scratch(spec, src)
        self.sc = sc
        self.want = [sc[i] for i in self.out[1]]
        self.error = None
        self.exc = {}
        self.results = {}
        if state is not None:
            self.times = dict(zip(sorted(self.world.stores), state))

    def describe(self):
        return self.args

    @property
    def log(self):
        return self.world.log

    def job(self, i, kind):
        import uberjob

        w = self.world
        try:
            if kind == "run":
                v = w.run(self.out, None, max_workers=self.W, scheduler=self.scheduler)
            elif kind == "fail":
                v = uberjob.run(w.plan, output=w.nodes[-1], registry=w.registry, max_workers=self.W, progress=None,
                                transform_physical=self.poison)
            elif kind == "dry":
                v = w.run(self.out, None, max_workers=self.W, dry_run=True)
            elif kind == "render":
                v = uberjob.render(w.plan, registry=w.registry, level=1, format="raw")
            self.results[i] = ("ok", v)
        except sched.SchedAbort:
            raise
        except BaseException as e:
            self.results[i] = ("err", e)

    def poison(self, plan, node):
        def boom(*a):
            raise ValueError("poison")
        n = plan.call(boom)
        plan.add_dependency(n, node)
        return plan, node

    def main(self):
        if self.inside:
            with self.world.plan.scope("open", 1):
                self.go()
        else:
            self.go()

    def go(self):
        import threading

        ts = [threading.Thread(target=self.job, args=(i, k)) for i, k in enumerate(self.jobs[1:], 1)]
        for t in ts:
            t.start()
        self.job(0, self.jobs[0])
        for t in ts:
            t.join()

    def body(self, s):
        w = self.world
        w.reset_run()
        w.points = True
        self.results = {}
        for j, t in (self.times.items() if self.state is not None else ()):
            w.stores[j].t, w.stores[j].val = t, None if t is None else self.sc[j]
        w.clock = 100
        return self.main

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=20_000):
        yield from sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix, max_steps=max_steps)

    def once(self, choices, budget, trace=None):
        return sched.run_once(self.body, choices, budget, trace=trace)


def conc_oracle(c, s):
    d = diff(c.ref, snap(c.world.plan, c.world.registry))
    if d:
        return f"concurrent {c.jobs} changed the {d}"
    if s is not None and s.deadlock:
        return f"concurrent {c.jobs}{' inside of a scope' if c.inside else ''} block each other forever"
    if s is not None and s.livelock:
        return None
    for i, k in enumerate(c.jobs):
        st, v = c.results.get(i, ("none", None))
        if k == "fail":
            if st != "err" or type(getattr(v, "__cause__", None)) is not ValueError:
                return f"job {i} ({k}) of concurrent {c.jobs} ended with {st} {v!r}"
        elif st != "ok":
            return f"job {i} ({k}) of concurrent {c.jobs} raised {v!r} (cause {getattr(v, '__cause__', None)!r})"
        elif k == "run" and worlds.strip(v) != c.want:
            return f"job {i} of concurrent {c.jobs} returned {v!r}, expected {c.want!r}"
    return None


# ------------------------------------------------------------------ runs of plain plans, renders, copies
def scoped_plan(spec, fail=()):
    import uberjob

    plan = uberjob.Plan()
    reg = uberjob.Registry()
    kinds, edges = spec
    nodes = []
    scopes = [(), ("a",), ("a", 1), ("b", ("t",)), ("a",), (None,)]
    for j, k in enumerate(kinds):
        with plan.scope(*scopes[j % len(scopes)]):
            if k in "lL":
                nodes.append(plan.lit(["mutable", {"x": [j]}]))
            else:
                def f(*a, j=j, **kw):
                    if j in fail:
                        raise ValueError(j)
                    return j
                f.__name__ = f.__qualname__ = f"f{j}"
                nodes.append(plan.call(f, *[nodes[i] for i, jj, kk in edges if jj == j and "a" in kk],
                                       **{f"k{i}": nodes[i] for i, jj, kk in edges if jj == j and "k" in kk}))
    for i, j, kk in edges:
        if "d" in kk:
            plan.add_dependency(nodes[i], nodes[j])
    return plan, reg, nodes


def run_plain(r, spec):
    """Every way of running or rendering one plan leaves it as it was, also inside an open scope."""
    import uberjob

    for fail in ((), (0,), (len(spec[0]) - 1,)):
        plan, reg, nodes = scoped_plan(spec, fail)
        for in_scope in (False, True):
            for out in [None, nodes[-1], [nodes[0], {"k": nodes}], (nodes[0],), {"x"}]:
                for kw in ({}, {"dry_run": True}, {"transform_physical": wreck}, {"max_workers": 1, "scheduler": "random"},
                           {"max_errors": None}, {"dry_run": True, "registry": reg}, {"registry": reg}, {"retry": 2}):
                    kw = {"progress": None, "max_workers": 2, **kw}

                    def go():
                        before = snap(plan, reg)
                        oid = shape(out)
                        try:
                            _, err, _ = H.solo(lambda: uberjob.run(plan, output=out, **kw))
                        finally:
                            pass
                        r.n["runs"] += 1
                        d = diff(before, snap(plan, reg))
                        if d:
                            r.violation(f"run({ {k: v for k, v in kw.items() if k != 'registry'} }) of {spec} (failing {fail}) changed the {d}",
                                        key=f"run changes {d}")
                        if shape(out) != oid:
                            r.violation("run changed the output specification it was given", key="run changes output spec")

                    if in_scope:
                        with plan.scope("open", 1):
                            go()
                    else:
                        go()
        # plans with a cycle: run must fail and still not touch anything
        if len(nodes) > 1:
            plan.add_dependency(nodes[-1], nodes[0])
            before = snap(plan, reg)
            for kw in ({}, {"dry_run": True}, {"registry": reg}):
                _, err, _ = H.solo(lambda: uberjob.run(plan, output=nodes[-1], progress=None, max_workers=2, **kw))
                r.n["runs"] += 1
                d = diff(before, snap(plan, reg))
                if d:
                    r.violation(f"run of a cyclic plan changed the {d}", key=f"cyclic run changes {d}")
    # render
    plan, reg, nodes = scoped_plan(spec)
    for j, n in enumerate(nodes):
        if j % 2 and spec[0][j] != "l":
            reg.add(n, uberjob.stores.LiteralSource(1, None))
    before = snap(plan, reg)
    preds = [None, lambda u, d: True, lambda u, d: False, lambda u, d: u is not nodes[0], lambda u, d: bool(u.scope)]
    for level, registry, pred, how in itertools.product((None, 0, 1, 2, 3), (None, reg), preds, ("plan", "graph", "tuple")):
        arg = plan if how == "plan" else plan.graph if how == "graph" else (plan, nodes[-1])
        try:
            uberjob.render(arg, registry=registry, level=level, predicate=pred, format="raw")
        except Exception:
            r.n["render_errors"] += 1
        r.n["renders"] += 1
        d = diff(before, snap(plan, reg))
        if d:
            r.violation(f"render(level={level}, {how}) of {spec} changed the {d}", key=f"render changes {d}")
    r.seen(spec)


def shape(x):
    """The structure of an output specification, with leaves by identity."""
    if type(x) in (list, tuple, set):
        return type(x), [shape(y) for y in x]
    if type(x) is dict:
        return dict, [(shape(k), shape(v)) for k, v in x.items()]
    return id(x)


def wreck(plan, node):
    """A transform_physical that destroys most of the physical plan it is handed."""
    import uberjob

    for n in list(plan.graph.nodes()):
        if n is not node:
            plan.graph.remove_node(n)
    with plan.scope("wreck"):
        x = plan.lit(1)
    if node is not None:
        plan.add_dependency(x, node)
        for u, v, k in list(plan.graph.in_edges(node, keys=True)):
            pass
        plan.graph.remove_node(node)
    return plan, x


MUTS = ("call", "lit", "dep", "gather", "unpack", "radd", "rsource", "rdel", "flag", "rmnode", "scope", "run")


def mutate(op, plan, reg, nodes, extra):
    import uberjob

    if not nodes and op in ("call", "lit", "dep", "gather", "unpack"):
        # nothing there yet
        nodes.append(plan.lit(7) if op in ("lit", "dep") else plan.call(lambda *a: 0))
    if op == "call":
        extra.append(plan.call(lambda *a: 0, nodes[0], [nodes[-1]]))
    elif op == "lit":
        extra.append(plan.lit(7))
    elif op == "dep":
        plan.add_dependency(nodes[0], nodes[-1])
    elif op == "gather":
        plan.gather([nodes[0], {"x": nodes[-1]}])
    elif op == "unpack":
        plan.unpack(nodes[-1], 2)
    elif op == "radd":
        for n in nodes:
            if n not in reg and plan.graph.has_node(n):
                reg.add(n, uberjob.stores.LiteralSource(1, None))
                break
    elif op == "rsource":
        extra.append(reg.source(plan, uberjob.stores.LiteralSource(2, None)))
    elif op == "rdel":
        for n in list(reg.mapping):
            del reg.mapping[n]
            break
    elif op == "flag":
        for v in reg.mapping.values():
            v.is_source = not v.is_source
            v.value_store = uberjob.stores.LiteralSource(3, None)
            v.stack_frame = None
    elif op == "rmnode":
        for n in list(plan.graph.nodes())[-1:]:
            plan.graph.remove_node(n)
    elif op == "scope":
        with plan.scope("inner"):
            plan.lit(1)
    elif op == "run":
        H.solo(lambda: uberjob.run(plan, progress=None, max_workers=1))
    return None


COPY_SPECS = {
    "full": ("cccl", ((0, 1, "a"), (0, 2, "d"), (1, 2, "k"))),
    "empty": ("", ()),
    "one": ("c", ()),
    "lit": ("l", ()),
}


def run_copies(r, depth, how, firsts, spec="full", registered=True, chain=1):
    """Every sequence of mutations on one side leaves the other side as it was (both directions); chain = 2: a copy of a copy, all three
    compared."""
    import uberjob

    cp = (lambda x: x.copy()) if how == "method" else copy.copy
    for f in firsts:
        for rest in itertools.product(MUTS, repeat=depth - 1):
            for side in range(chain + 1):
                plan, reg, nodes = scoped_plan(COPY_SPECS[spec])
                if registered and nodes:
                    reg.add(nodes[len(nodes) // 3], uberjob.stores.LiteralSource(0, None))
                with plan.scope("open"):
                    pairs = [(plan, reg)]
                    for _ in range(chain):
                        pairs.append((cp(pairs[-1][0]), cp(pairs[-1][1])))
                    for p2, r2 in pairs[1:]:
                        if cp(p2).lit(1).scope != ():
                            r.violation("a copy does not start with an empty scope", key="copy scope")
                        if type(p2) is not uberjob.Plan or type(r2) is not uberjob.Registry:
                            r.violation("copies have another type", key="copy type")
                        a, b = snap(plan, reg), snap(p2, r2)
                        if [x[:2] for x in a[1]] != [x[:2] for x in b[1]] or sorted(a[2]) != sorted(b[2]) or \
                                [(x[0], *x[2:]) for x in a[4]] != [(x[0], *x[2:]) for x in b[4]]:
                            r.violation("a copy differs from its original", key="copy differs")
                    mine = pairs[side]
                    others = [p for p in pairs if p is not mine]
                    refs = [snap(*p) for p in others]
                    ns = list(nodes)
                    for op in (f, *rest):
                        try:
                            mutate(op, *mine, ns, [])
                        except Exception:
                            pass
                        r.n["mutations"] += 1
                        ds = [d for ref, p in zip(refs, others) if (d := diff(ref, snap(*p)))]
                        if ds:
                            r.violation(f"{'original' if side == 0 else 'copy'} mutated by {(f, *rest)} (at {op}): the other side's {ds} changed "
                                        f"(plan {spec}, registered={registered}, copies in a chain: {chain})",
                                        key=f"copy not independent: {op} {side} {ds} {spec} {registered} {chain}")
                            break
                r.seen((how, side, f, rest, spec, registered, chain))


# ------------------------------------------------------------------
def run_task(task):
    k = task[0]
    if k.startswith("conc"):
        return H.run_cases(task, conc_oracle, make=Conc, seen=lambda c: tuple(e[:2] for e in c.log))
    r = R()
    if k.startswith("plain"):
        for spec in task[1]:
            run_plain(r, spec)
        return r
    if k.startswith("copy"):
        run_copies(r, *task[1:])
        return r
    return HC.search_task(task, mk)


def replay(r, v):
    if "case" in v["data"]:
        H.replay_case(r, v, conc_oracle, make=Conc)
    elif "opts" in v["data"]:
        HC.replay_with(run_task)(r, v)
    else:
        from mc.core import _tuplify

        r.absorb(run_task(_tuplify(v["task"])))


def coverage(total, tier=None):
    n = total.n
    return {
        "states": n.get("states", 0) + n.get("choice_points", 0), "transitions": n.get("transitions", 0) + n.get("steps", 0),
        "traces_validated_against_impl": n.get("runs", 0) + n.get("executions", 0) + n.get("dry_runs", 0) + n.get("renders", 0) + n.get("mutations", 0),
        "explanation": "every run/dry run/failed run of the history search, every explored schedule of concurrent runs, every render and "
                       "every mutation sequence on copies executes the real code and compares structural snapshots",
    }


def conc_cases(names, jobs, **kw):
    for n in names:
        spec = REGS[n]
        for st in states(spec):
            for js in jobs:
                yield H.kwt(spec=spec, state=st, jobs=js, **kw)


PLAIN = {"p1": ("cc", ((0, 1, "a"),)), "p2": ("ccc", ((0, 2, "a"), (1, 2, "k"))), "p3": ("clc", ((0, 1, "d"), (1, 2, "a")))}


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    J2 = (("run", "run"), ("run", "dry"), ("run", "fail"), ("run", "render"), ("dry", "render"))
    J3 = (("run", "run", "dry"), ("run", "fail", "run"))
    plainc = [H.kwt(spec=s, state=(), jobs=js, W=W) for s in PLAIN.values() for js in J2 + J3 for W in (1, 2)]
    T += H.chunk(plainc, (H.B(1, 0, cap=300 if quick else 5000), H.B(0, 1, cap=100)), 3, "concp-")
    T += H.chunk([H.kwt(spec=s, state=(), jobs=js, W=1) for s in PLAIN.values() for js in J2],
                 (H.B(1, 0, b=0, ops="all", cap=500 if quick else 10000),), 1, "conco-")
    T += H.chunk(conc_cases(("chain", "both", "dsrcs", "slit"), J2 + J3, W=1), (H.B(1, 0, b=0, cap=150 if quick else 3000), H.B(0, 1, cap=40)), 6, "concs-")
    T += H.chunk([H.kwt(spec=s, state=(), jobs=js, W=1, inside=True) for s in PLAIN.values() for js in J2 + J3],
                 (H.B(1, 0, cap=100 if quick else 2000),), 3, "concin-")
    T += H.chunk(conc_cases(("chain", "dsrcs"), J2, W=1, inside=True), (H.B(1, 0, b=0, cap=60 if quick else 2000),), 6, "concsin-")
    T += H.chunk(conc_cases(("src1",), J2, W=2), (H.B(1, 0, b=0, ops="all", cap=500 if quick else 10000),), 1, "concso-")
    for n in HC.BIG + HC.MID + HC.SMALL:
        T += HC.chunk([(REGS[n], HC.opt(cap=400 if quick else 5000, cuts=True, cut_errs=(0, None), outs=(("none",), ("list", tuple(range(len(REGS[n][0]))))),
                                        delete_sources=True))], 1, "hist-")
    s3 = HC.small_specs(3, "oscyl") + [s for s in HC.small_specs(2, "oscyLl") if "L" in s[0]]
    T += HC.chunk(((s, HC.opt(cap=60 if quick else 2000, cuts=True, cut_errs=(0,))) for s in s3), 10, "hist3-")
    shapes = list(dict.fromkeys(plans.SHAPES.values()))
    T += [(f"plain-{i}", tuple(shapes[i:i + 2])) for i in range(0, len(shapes), 2)]
    for how in ("method", "copy"):
        for f in MUTS:
            T.append(("copy", 3 if quick else 4, how, (f,)))
        for spec, registered in (("empty", False), ("one", False), ("one", True), ("lit", False), ("full", False)):
            T.append(("copy", 2 if quick else 3, how, MUTS, spec, registered))
        T.append(("copy", 2 if quick else 3, how, MUTS, "full", True, 2))
        T.append(("copy", 2, how, MUTS, "empty", False, 2))
    return T


def free(r, tier, seed):
    import threading

    import uberjob

    n = 0
    for spec in (PLAIN["p2"], REGS["chain"], REGS["diamond"]):
        w = worlds.World(spec)
        src = {j: ("src", j, 1) for j, k in enumerate(spec[0]) if k in worlds.SOURCES}
        want = list(worlds.scratch(spec, src).values())
        ref = snap(w.plan, w.registry)
        for _ in range(5):
            for j, k in enumerate(spec[0]):
                if k in worlds.SOURCES:
                    w.stores[j].val, w.stores[j].t = src[j], 1
            w.clock = 10
            out = []

            def go():
                try:
                    out.append(w.run(("list", tuple(range(len(spec[0])))), max_workers=2))
                except BaseException as e:
                    out.append(e)

            ts = [threading.Thread(target=go) for _ in range(4)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            n += 4
            if any(worlds.strip(o) != want for o in out if not isinstance(o, BaseException)) or any(isinstance(o, BaseException) for o in out):
                r.violation(f"free-running concurrent runs of {spec} returned {out!r}, expected {want!r}"[:800])
            d = diff(ref, snap(w.plan, w.registry))
            if d:
                r.violation(f"free-running concurrent runs changed the {d}")
    return n
