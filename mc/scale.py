"""Plans of hundreds and thousands of nodes, each run under the controlled scheduler with default choices: the properties at sizes that the
schedule exploration cannot reach (recursion depths, numbers of paths, of arguments, of scopes, of errors)."""
import collections
import datetime as dt
import threading

from mc import sched
from mc.core import R

MOD = (1 << 61) - 1
T0 = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)


class Rd(int):
    """What a store's read returns."""


class Failed(Exception):
    pass


# ---- shapes: (kinds, edges), topologically numbered
def chain(n, kind="c", k="a"):
    return (kind * n, tuple((i, i + 1, k) for i in range(n - 1)))


def ladder(d, kind="c", k="a"):
    """2**d paths."""
    return (kind * (2 * d), tuple((2 * i + x, 2 * i + 2 + y, k) for i in range(d - 1) for x in (0, 1) for y in (0, 1)))


def fan_in(n, k="a"):
    return ("c" * (n + 1), tuple((i, n, k) for i in range(n)))


def fan_out(n, k="a"):
    return ("c" * (n + 1), tuple((0, i + 1, k) for i in range(n)))


def grid(a, b):
    return ("c" * (a * b), tuple(e for i in range(a) for j in range(b) for e in
                                 ([((i - 1) * b + j, i * b + j, "a")] if i else []) + ([(i * b + j - 1, i * b + j, "k")] if j else [])))


def lit_chain(n):
    """Calls that are ordered through literals only."""
    return ("cl" * n, tuple((i, i + 1, "d") for i in range(2 * n - 1)))


def barrier(n):
    return ("c" * n + "l" + "c" * n, tuple((i, n, "d") for i in range(n)) + tuple((n, n + 1 + i, "d") for i in range(n)))


def clique(n):
    return ("c" * n, tuple((i, j, "akd"[(i + j) % 3]) for j in range(n) for i in range(j)))


PLAIN = {
    "chain": lambda: chain(2500), "chaind": lambda: chain(2500, k="d"), "ladder": lambda: ladder(700), "ladderd": lambda: ladder(700, k="d"),
    "fanin": lambda: fan_in(2000), "faninkw": lambda: fan_in(600, "k"), "fanout": lambda: fan_out(2500), "grid": lambda: grid(40, 40),
    "litchain": lambda: lit_chain(1300), "barrier": lambda: barrier(60), "clique": lambda: clique(45), "many": lambda: ("c" * 3000, ()),
    "fans": lambda: ("c" * (4 + 4 * 1100), tuple((i, 4 + 1100 * i + j, "a") for i in range(4) for j in range(1100))),
    "faninlit": lambda: ("c" * 1200 + "l" + "c", tuple((i, 1200, "d") for i in range(1200)) + ((1200, 1201, "d"),)),
}


def with_source(spec):
    kinds, edges = spec
    heads = [j for j in range(len(kinds)) if not any(e[1] == j for e in edges)] if len(kinds) < 50 else heads_of(spec)
    return ("o" + kinds, tuple((0, j + 1, "a") for j in heads) + tuple((i + 1, j + 1, k) for i, j, k in edges))


def heads_of(spec):
    t = {j for _, j, _ in spec[1]}
    return [j for j in range(len(spec[0])) if j not in t]


def alternate(spec, pat):
    """Every kind c replaced by the pattern, cyclically."""
    return ("".join(pat[j % len(pat)] if x == "c" else x for j, x in enumerate(spec[0])), spec[1])


STORED = {
    "chain": lambda: with_source(chain(1100, "s")), "chainc": lambda: with_source(alternate(chain(1600), "sccc")), "ladder": lambda: with_source(ladder(150, "s")),
    "ladderc": lambda: with_source(alternate(ladder(300), "sccccc")), "ladderu": lambda: with_source(alternate(ladder(150), "c" * 299 + "s")),
    "fanin": lambda: with_source(alternate(fan_in(400), "s")), "fanout": lambda: with_source(alternate(fan_out(400), "s")),
    "faninc": lambda: with_source(alternate(fan_in(400), "cs")), "chaind": lambda: with_source(chain(1100, "s", "d")),
    "grid": lambda: with_source(alternate(grid(15, 15), "sc")), "sources": lambda: ("o" * 300 + "s" * 300, tuple((i, 300 + i, "a") for i in range(300))),
    "tailc": lambda: with_source(("s" + "c" * 1500, tuple((i, i + 1, "a") for i in range(1500)))),
}


class Big:
    def __init__(self, spec, scheduler=None):
        import uberjob

        self.scheduler = scheduler

        self.kinds, self.edges = self.spec = spec
        self.n = n = len(self.kinds)
        self.args = {j: [] for j in range(n)}
        self.deps = {j: [] for j in range(n)}
        self.succ = {j: [] for j in range(n)}
        for i, j, k in self.edges:
            self.succ[i].append(j)
            if k == "d":
                self.deps[j].append(i)
            else:
                self.args[j].append((i, k))
        self.plan = plan = uberjob.Plan()
        self.registry = registry = uberjob.Registry()
        self.nodes = []
        self.stores = {}
        self.vals = {}
        self.times = {}
        self.fail = {}
        self.fail_store = {}
        self.clock = 0
        self.log = []
        self.excs = {}
        self.rec = []
        for j, kind in enumerate(self.kinds):
            if kind == "l":
                node = plan.lit(j)
            elif kind == "o":
                node = registry.source(plan, self.store(j))
            else:
                node = plan.call(self.fn(j), *[self.nodes[i] for i, k in self.args[j] if k == "a"],
                                 **{f"k{i}": self.nodes[i] for i, k in self.args[j] if k == "k"})
                if kind == "s":
                    registry.add(node, self.store(j))
            self.nodes.append(node)
        for j in range(n):
            for i in self.deps[j]:
                plan.add_dependency(self.nodes[i], self.nodes[j])

    def store(self, j):
        import uberjob

        b = self

        class Mem(uberjob.ValueStore):
            def read(self):
                b.log.append(("r", j))
                return Rd(b.vals[j])

            def write(self, value):
                b.log.append(("w", j))
                b.clock += 1
                b.vals[j], b.times[j] = int(value), b.clock
                b.log.append(("W", j))

            def get_modified_time(self):
                b.log.append(("m", j))
                t = b.times.get(j)
                return None if t is None else T0 + dt.timedelta(seconds=t)

        return Mem()

    def fn(self, j):
        def f(*a, **kw):
            self.log.append(("s", j))
            sched.S.yield_(sched.cur())
            e = self.fail.get(j)
            if e is not None:
                self.excs[j] = e
                self.log.append(("x", j))
                raise e
            for i, x in zip([i for i, k in self.args[j] if k == "a"], a):
                if (type(x) is Rd) != (self.kinds[i] in "so"):
                    self.log.append(("bad", j, i))
            for i, k in self.args[j]:
                if k == "k" and (type(kw[f"k{i}"]) is Rd) != (self.kinds[i] in "so"):
                    self.log.append(("bad", j, i))
            v = value(j, [int(x) for x in a], {k: int(x) for k, x in kw.items()})
            self.log.append(("e", j))
            return v

        f.__name__ = f.__qualname__ = f"f{j % 5}"
        return f

    def scratch(self):
        out = {}
        for j, k in enumerate(self.kinds):
            if k == "l":
                out[j] = j
            elif k == "o":
                out[j] = self.vals[j]
            else:
                out[j] = value(j, [out[i] for i, k in self.args[j] if k == "a"], {f"k{i}": out[i] for i, k in self.args[j] if k == "k"})
        return out

    def progress(self):
        from uberjob.progress import Progress, ProgressObserver

        b = self

        class Rec(ProgressObserver):
            def __enter__(self):
                b.rec.append(("enter",))

            def __exit__(self, *a):
                b.rec.append(("exit",))

            def increment_total(self, *, section, scope, amount):
                b.rec.append(("total", section, scope, amount))

            def increment_running(self, *, section, scope):
                b.rec.append(("running", section, scope))

            def increment_completed(self, *, section, scope):
                b.rec.append(("completed", section, scope))

            def increment_failed(self, *, section, scope, exception):
                b.rec.append(("failed", section, scope))

        return Progress(Rec)

    def run(self, out, W=2, **kw):
        """result, error, scheduler; the log and the notifications are those of this run."""
        import uberjob

        self.log, self.rec, self.excs = [], [], {}
        s = sched.Scheduler(sched.Chooser([], sched.ZERO), max_steps=3_000_000, wall=120.0)
        s.spread = 12345 + W
        s.run(lambda: uberjob.run(self.plan, output=out, registry=self.registry if self.stores_used else None, max_workers=W,
                                  scheduler=self.scheduler, progress=self.progress(), **kw))
        return s.result, s.error, s

    @property
    def stores_used(self):
        return any(k in "so" for k in self.kinds)

    def up(self, outs):
        seen, todo = set(outs), list(outs)
        while todo:
            j = todo.pop()
            for i in [i for i, _ in self.args[j]] + self.deps[j]:
                if i not in seen:
                    seen.add(i)
                    todo.append(i)
        return seen

    def down(self, f):
        seen, todo = set(), [f]
        while todo:
            for i in self.succ[todo.pop()]:
                if i not in seen:
                    seen.add(i)
                    todo.append(i)
        return seen


def value(j, a, kw):
    h = j + 1
    for x in a:
        h = (h * 1000003 + x + 7) % MOD
    for k, x in kw.items():
        h = (h * 998244353 + x + int(k[1:])) % MOD
    return h


def common(b, s, ok, err, out):
    """C07 and C15, and the account of an unexpected error."""
    if s.deadlock or s.livelock:
        out["C07"].append("run does not end")
    elif s.live_at_return or s.leftover:
        out["C07"].append("threads of the run are still alive when it ends")
    tot, run, end = collections.Counter(), collections.Counter(), collections.Counter()
    if b.rec[:1] != [("enter",)] or b.rec[-1:] != [("exit",)] or b.rec.count(("exit",)) != 1:
        out["C15"].append("the observer is not entered first or not exited once, last")
    for e in b.rec:
        if e[0] == "total":
            tot[e[1:3]] += e[3]
            if run[e[1:3]]:
                out["C15"].append(f"total for {e[1:3]} after something in it was running")
        elif e[0] == "running":
            run[e[1:3]] += 1
            if not tot[e[1:3]]:
                out["C15"].append(f"{e[1:3]} running before a total")
        elif len(e) == 3:
            end[e[1:3]] += 1
    if run != end:
        out["C15"].append("running notifications are not balanced by completed and failed ones")
    if ok and +tot != +end:
        out["C15"].append("after a successful run completed differs from total")
    if ok and sum(n for (sec, sc), n in tot.items() if sec == "run" and "MemStore" not in str(sc)) < sum(e[0] == "s" for e in b.log):
        out["C15"].append("fewer calls in the run totals than were executed")


def starts(b, kind="s"):
    return collections.Counter(e[1] for e in b.log if e[0] == kind)


def plain(shape, W, scheduler=None):
    b = Big(PLAIN[shape](), scheduler)
    out = collections.defaultdict(list)
    sinks = [j for j in range(b.n) if not b.succ[j]]
    lone = b.n // 2
    for o in ([sinks, [lone]]):
        spec_out = [b.nodes[j] for j in o]
        res, err, s = b.run(spec_out, W)
        common(b, s, err is None, err, out)
        need = {j for j in b.up(o) if b.kinds[j] != "l"}
        order = {}
        for k, e in enumerate(b.log):
            order[e] = k
        if err is not None:
            for p in ("C02", "C04", "C06", "C10"):
                out[p].append(f"no call failed but run raised {type(err).__name__}: {str(err)[:100]}")
            return out
        sc = b.scratch()
        if res != [sc[j] for j in o]:
            out["C02"].append("the result differs from direct evaluation")
        c = starts(b)
        if set(c) != need or any(n != 1 for n in c.values()):
            out["C04"].append(f"{len(need)} calls are needed; executed {len(c)}, more than once {[j for j, n in c.items() if n > 1][:5]}")
        for i, j, _ in through(b):
            if ("s", j) in order and order.get(("e", i), 10**9) > order["s", j]:
                out["C01"].append(f"call {j} started before call {i} had finished")
                break
    # dry run and execution of its plan
    import uberjob

    ref = len(b.plan.graph), b.plan.graph.number_of_edges()
    dry, err, s = b.run(spec_out, W, dry_run=True)
    if err is not None or any(e[0] != "m" for e in b.log):
        out["C14"].append(f"dry run raised {err!r}"[:200] if err else "the dry run executed something")
    else:
        s = sched.Scheduler(sched.Chooser([], sched.ZERO), max_steps=3_000_000, wall=120.0)
        b.log = []
        s.run(lambda: uberjob.run(dry[0], output=[dry[1], list(dry[0].graph.nodes())], max_workers=W, progress=None))
        if not s.result or s.result[0] != res or set(starts(b)) != need:
            out["C14"].append("executing the physical plan differs from the run")
    if (len(b.plan.graph), b.plan.graph.number_of_edges()) != ref:
        out["C13"].append("the plan changed")
    # one failing call early on, and all the last ones
    for fs, me in (((b.n // 3,), 0), ((b.n // 3,), None), (tuple(j for j in sinks if b.kinds[j] == "c")[:700], None)):
        fs = [f - (b.kinds[f] == "l") for f in fs]
        b.fail = {f: Failed(f) for f in fs}
        res, err, s = b.run([b.nodes[j] for j in sinks], W, max_errors=me)
        common(b, s, False, err, out)
        bad = set().union(*(b.down(f) for f in fs)) if fs else set()
        c = starts(b)
        if any(n > 1 for n in c.values()):
            out["C04"].append("a call ran twice in a failing run")
        if set(c) & bad:
            out["C06"].append(f"call {min(set(c) & bad)} ran although a call upstream of it failed")
        if fs:
            if type(err) is not uberjob.CallError or not any(err.call is b.nodes[f] for f in b.excs):
                out["C06"].append(f"calls {fs[:5]} fail, run raised {type(err).__name__} {str(err)[:100]}")
            elif err.__cause__ is not next(b.excs[f] for f in b.excs if err.call is b.nodes[f]):
                out["C06"].append("the cause is not the exception of that call")
        if me is None:
            want = {j for j in range(b.n) if b.kinds[j] == "c" and j not in bad}
            if set(c) != want:
                out["C10"].append(f"max_errors=None: {len(want)} calls have no failed dependency, {len(c)} executed")
        elif me == 0 and W == 1 and len(b.excs) != 1:
            out["C10"].append(f"{len(b.excs)} calls failed with max_errors=0 and one worker")
        b.fail = {}
    return out


def through(b):
    """Edges between calls, literals skipped by one step of transitive closure (they only occur in short chains of literals)."""
    into = collections.defaultdict(list)
    for i, j, k in b.edges:
        if b.kinds[j] == "l":
            into[j].append(i)
    for i, j, k in b.edges:
        if b.kinds[j] == "l":
            continue
        if b.kinds[i] == "l":
            for x in into[i][:40] + into[i][-40:]:
                if b.kinds[x] != "l":
                    yield x, j, k
        else:
            yield i, j, k


def plan_work(b, stale, outs):
    """(reads, calls) of a run, by a pass against the order of the nodes."""
    val, done = set(outs), {j for j in stale}
    reads, calls = set(), set()
    for j in reversed(range(b.n)):
        reg = b.kinds[j] in "so"
        if j in val and reg:
            reads.add(j)
        if j in done and (not reg or j in stale) or j in val and not reg:
            if b.kinds[j] in "cs":
                calls.add(j)
                val.update(i for i, _ in b.args[j])
                done.update(i for i, _ in b.args[j] if b.kinds[i] not in "so" or i in stale)
            done.update(b.deps[j])
    return reads, calls


def stale_of(b):
    up_max, up_stale, stale = {}, {}, set()
    for j, k in enumerate(b.kinds):
        ps = [i for i, _ in b.args[j]] + b.deps[j]
        m = max([x for i in ps for x in [max(up_max[i], b.times.get(i) or 0 if b.kinds[i] in "so" else 0)]], default=0)
        st = any(up_stale[i] or i in stale for i in ps)
        if k in "so":
            t = b.times.get(j)
            if t is None or st or m > t:
                stale.add(j)
        up_max[j], up_stale[j] = m, st
    return stale


def stored(shape, W, scheduler=None):
    import uberjob

    b = Big(STORED[shape](), scheduler)
    out = collections.defaultdict(list)
    for j, k in enumerate(b.kinds):
        if k == "o":
            b.clock += 1
            b.vals[j], b.times[j] = 11 * j + 5, b.clock
    regs = [j for j, k in enumerate(b.kinds) if k == "s"]
    sink = b.n - 1

    def update():
        b.clock += 1
        b.vals[0], b.times[0] = b.vals[0] + 1, b.clock

    def drop(i):
        def f():
            b.times.pop(regs[i], None)
            b.vals.pop(regs[i], None)
        return f

    def touch(i):
        def f():  # rewritten by someone else: everything downstream is out of date
            b.clock += 1
            b.times[regs[i]] = b.clock
        return f

    def none():
        pass

    steps = [("first", none), ("again", none), ("dropped last", drop(-1)), ("dropped middle", drop(len(regs) // 2)), ("touched", touch(len(regs) // 3)),
             ("updated", update), ("dropped first", drop(0))]
    for name, ev in steps:
        for o in ((), (sink,)):
            if o and name not in ("again", "updated"):
                continue
            ev()
            where = f"{shape} {name} output {o}"
            stale = stale_of(b)
            reads, calls = plan_work(b, stale, o)
            spec_out = b.nodes[o[0]] if o else None
            keep = dict(b.vals), dict(b.times), b.clock
            # the dry run first
            dry, derr, s = b.run(spec_out, W, dry_run=True)
            if derr is not None or any(e[0] != "m" for e in b.log):
                out["C14"].append(f"{where}: dry run raised {derr!r}"[:200] if derr else f"{where}: the dry run touched something")
            if any(n > 1 for n in starts(b, "m").values()):
                out["C14"].append(f"{where}: modified times asked for more than once")
            dlog = dres = None
            if derr is None:
                s = sched.Scheduler(sched.Chooser([], sched.ZERO), max_steps=3_000_000, wall=120.0)
                b.log = []
                s.run(lambda: uberjob.run(dry[0], output=[dry[1], list(dry[0].graph.nodes())], max_workers=W, progress=None))
                dlog, dres = sorted(e for e in b.log if e[0] in "srw"), s.result and s.result[0]
                if s.error is not None:
                    out["C14"].append(f"{where}: executing the physical plan raised {s.error!r}"[:200])
                b.vals, b.times, b.clock = keep
                b.vals, b.times = dict(b.vals), dict(b.times)
            res, err, s = b.run(spec_out, W)
            common(b, s, err is None, err, out)
            if err is not None:
                for p in ("C03", "C05", "C08", "C09", "C14"):
                    out[p].append(f"{where}: run raised {type(err).__name__}: {str(err)[:100]}")
                return out
            if dlog is not None and (dlog != sorted(e for e in b.log if e[0] in "srw") or dres != res):
                out["C14"].append(f"{where}: executing the physical plan differs from the run")
            sc = b.scratch()
            if any(b.vals[j] != sc[j] for j in regs):
                out["C03"].append(f"{where}: a stored value differs from evaluation from scratch")
            if o and res != sc[o[0]] or not o and res is not None:
                out["C03"].append(f"{where}: the output differs from evaluation from scratch")
            w, c, rd = starts(b, "w"), starts(b), starts(b, "r")
            if set(w) != {j for j in stale if b.kinds[j] == "s"} or any(n > 1 for x in (w, c, rd) for n in x.values()):
                out["C05"].append(f"{where}: {len(stale)} values are out of date; {len(w)} written")
            if set(c) - calls or {j for j in c if b.kinds[j] == "s"} != {j for j in stale if b.kinds[j] == "s"}:
                out["C05"].append(f"{where}: executed {len(c)} calls, {len(calls)} needed")
            if set(rd) - reads:
                out["C05"].append(f"{where}: read {len(set(rd) - reads)} stores that nothing consumes")
            if any(e[0] == "bad" for e in b.log):
                e = next(e for e in b.log if e[0] == "bad")
                out["C09"].append(f"{where}: call {e[1]} was not given what the store of {e[2]} reads (or was given a read value of an unstored call)")
            order = {e: k for k, e in enumerate(b.log)}
            for j in c:
                for i, _ in b.args[j]:
                    need = ("r", i) if b.kinds[i] in "so" else ("e", i)
                    if order.get(need, 10**9) > order["s", j] or i in stale and b.kinds[i] == "s" and order.get(("W", i), 10**9) > order.get(("r", i), -1):
                        out["C09"].append(f"{where}: call {j} started before {i} was written and read back")
                for i in b.deps[j]:
                    if i in stale and order.get(("W", i), 10**9) > order["s", j]:
                        out["C09"].append(f"{where}: call {j} started before {i}, on which it depends, was written")
    # a failure in the middle, then a repair
    update()
    f = sorted(b.down(0) & set(regs))
    f = f[len(f) // 2]
    b.fail = {f: Failed(f)}
    res, err, s = b.run(None, W, max_errors=None)
    common(b, s, False, err, out)
    bad = b.down(f)
    if type(err) is not uberjob.CallError or err.call is not b.nodes[f] or err.__cause__ is not b.fail[f]:
        out["C06"].append(f"{shape}: call {f} fails; run raised {err!r}"[:200])
    if set(starts(b)) & bad:
        out["C06"].append(f"{shape}: calls downstream of the failed call {f} ran")
    b.fail = {}
    sc = b.scratch()
    fresh = set(regs) - stale_of(b)
    if any(b.vals[j] != sc[j] for j in fresh):
        out["C08"].append(f"{shape}: after a failed run a value that counts as up to date is wrong")
    res, err, s = b.run(None, W)
    if err is not None or any(b.vals[j] != sc[j] for j in regs):
        out["C08"].append(f"{shape}: the run after a failed one does not repair the stores ({err!r})"[:200])
    if set(starts(b, "w")) & fresh:
        out["C08"].append(f"{shape}: values completely written before the failure were rewritten")
    return out


def run_task(pid, task):
    r = R()
    _, kind, shape, W, *scheduler = task
    n0 = threading.active_count()
    out = (plain if kind == "plain" else stored)(shape, W, *scheduler)
    del n0
    r.n["scale_plans"] += 1
    r.seen((kind, shape, W, *scheduler))
    for m in out.get(pid, [])[:1]:
        r.violation(f"{kind} plan {shape} with {W} workers {scheduler or ''}: {m}",
                    key=f"scale {kind} {shape}: {m}"[:300], scale=repr(task))
    return r


def tasks(pid, tier):
    """Quick: each plan with one number of workers."""
    Ws = lambda i: (1, 3) if tier != "quick" else ((1, 3)[i % 2],)  # noqa: E731
    k = int(pid[1:])
    T = []
    if pid in ("C01", "C02", "C04", "C06", "C07", "C10", "C13", "C14", "C15"):
        for i, s in enumerate(PLAIN):
            for W in (1, 3):
                for j, sc in enumerate((None, "random")):
                    if tier != "quick" or pid == "C07" or (i + k + W // 2 + j) % 2 == 0:
                        T.append(("scale", "plain", s, W, sc))
    if pid in ("C03", "C05", "C06", "C07", "C08", "C09", "C14", "C15"):
        T += [("scale", "stored", s, W) for i, s in enumerate(STORED) for W in Ws(i + k)]
    return T
