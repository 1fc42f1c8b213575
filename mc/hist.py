"""Explicit-state search over histories of an incremental pipeline.  Every transition executes the real uberjob.run."""
import collections
import itertools
import shutil
import tempfile

from mc import plans, sched, worlds
from mc.worlds import REG, SOURCES, STORED


def _vers(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "src":
            out.append((v[1], v[2]))
            return
        for x in v:
            _vers(x, out)


def _relabel(v, m):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "src":
            return ("src", v[1], m[v[1], v[2]])
        return tuple(_relabel(x, m) for x in v)
    return v


class Outcome:
    __slots__ = ("log", "result", "error", "after", "clock", "nops", "cut", "deadlock", "written", "excs")


class Hist:
    def __init__(self, spec, *, reg_rev=False, order=0, delete_sources=False, cuts=True, cut_errs=(0, None), cap=4000,
                 freshes=True, outs=None, cut_fresh=True, par=None, par_cap=60, disk=False):
        self.spec = spec
        self.kinds = spec[0]
        self.dir = None
        if disk:
            from mc import disk as D

            self.dir = tempfile.mkdtemp(prefix="verif-")
            self.world = D.DiskWorld(spec, self.dir, reg_rev=reg_rev, order=order)
        else:
            self.world = worlds.World(spec, reg_rev=reg_rev, order=order)
        self.regs = sorted(self.world.stores)
        self.delete_sources, self.cuts, self.cut_errs, self.cap = delete_sources, cuts, cut_errs, cap
        self.freshes, self.cut_fresh = freshes, cut_fresh
        # par = (workers, scheduler, budget pass): also take every schedule of the full-output runs and cut runs
        self.par, self.par_cap = par, par_cap
        n = len(self.kinds)
        self.full = ("list", tuple(range(n)))
        self.outs = outs or [("none",), self.full]
        self.stats = collections.Counter()
        self.stored_writer = any(w is not None and self.kinds[w] == "s" for w in self.world.writer.values())
        self.args = dict(spec=spec, reg_rev=reg_rev, order=order)

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- states
    def canon(self, st):
        ts = sorted({t for _, t in st if t is not None})
        rank = {t: i + 1 for i, t in enumerate(ts)}
        vs = []
        for (v, t), j in zip(st, self.regs):  # current versions first
            if self.kinds[j] == "o":
                _vers(v, vs)
        for v, t in st:
            _vers(v, vs)
        m, cnt = {}, collections.Counter()
        for key in vs:
            if key not in m:
                m[key] = cnt[key[0]]
                cnt[key[0]] += 1
        return tuple((_relabel(v, m) if v is not None else None, None if t is None else rank[t]) for v, t in st)

    def initial(self):
        st, t = [], 0
        for j in self.regs:
            if self.kinds[j] == "o":
                t += 1
                st.append((("src", j, 0), t))
            else:
                st.append((None, None))
        return self.canon(tuple(st))

    def times(self, st):
        return {j: t for j, (_, t) in zip(self.regs, st)}

    def now(self, st):
        return max([t for _, t in st if t is not None], default=0)

    def scratch(self, st):
        src = {j: v for j, (v, _) in zip(self.regs, st) if self.kinds[j] in SOURCES}
        return worlds.scratch(self.spec, src)

    def missing_source(self, st):
        return any(self.kinds[j] == "o" and t is None for j, (_, t) in zip(self.regs, st))

    # -- executing
    def run(self, st, out=("none",), fresh=None, cut=None, fn=None, **kw):
        for o in self.runs(st, out, fresh, cut, fn, **kw):
            return o

    def runs(self, st, out=("none",), fresh=None, cut=None, fn=None, budget=None, cap=None, **kw):
        """Execute one run from the given store state: once with default choices, or once per schedule within budget."""
        w = self.world
        box = {}

        def main():
            try:
                box["result"] = fn() if fn else w.run(out, fresh, **kw)
                w.log.append(("ret",))
            except sched.SchedAbort:
                raise
            except BaseException as e:
                box["error"] = e

        def body(s):
            w.set(st, max(self.now(st), fresh or 0))
            w.reset_run()
            w.cut = cut
            w.points = budget is not None
            box.clear()
            return main

        def outcome(s):
            o = Outcome()
            o.result, o.error = box.get("result"), box.get("error")
            self.stats["runs"] += 1
            self.stats["ops"] += len(w.log)
            o.log = w.log
            o.after = w.get()
            o.clock = w.clock
            o.nops = w.nops
            o.cut = w.cut_what
            o.written = w.written
            o.excs = w.excs
            o.deadlock = s.deadlock or s.livelock
            w.cut = None
            return o

        if budget is None:
            s = sched.Scheduler(sched.Chooser([], sched.ZERO))
            s.run(body(s))
            yield outcome(s)
            return
        st_ = sched.Stats()
        for s, ch in sched.explore(body, budget, stats=st_, cap=cap):
            yield outcome(s)
        self.stats["schedules"] += st_.executions
        self.stats["schedule_caps"] += st_.capped

    def par_kw(self):
        W, scheduler, budget = self.par
        return dict(max_workers=W, scheduler=scheduler, budget=dict(budget), cap=self.par_cap)

    def fresh_values(self, st):
        if not self.freshes:
            return [None]
        ts = sorted({t for _, t in st if t is not None})
        return [None, *ts, self.now(st) + 1]

    def world_events(self, st):
        """External events: (label, new state)."""
        n = self.now(st)
        for p, j in enumerate(self.regs):
            v, t = st[p]
            if self.kinds[j] == "o":
                vs = []
                for x, _ in st:
                    _vers(x, vs)
                ver = 1 + max([b for a, b in vs if a == j], default=0)
                yield ("upd", j), st[:p] + ((("src", j, ver), n + 1),) + st[p + 1:]
            if t is not None and (self.kinds[j] in STORED or (self.kinds[j] == "y" and not self.stored_writer)
                                  or (self.kinds[j] == "o" and self.delete_sources)):
                yield ("del", j), st[:p] + ((None, None),) + st[p + 1:]

    def search(self, visit=None, on_run=None, on_cut=None):
        """Breadth-first to a fixpoint (or cap).  Callbacks may return a message: the search stops and returns it."""
        s0 = self.initial()
        parent = {s0: None}
        q = collections.deque([s0])
        self.parent = parent
        while q:
            st = q.popleft()
            self.stats["states"] += 1
            succ = []
            for lab, ns in self.world_events(st):
                succ.append((lab, ns))
            if visit:
                m = visit(st)
                if m:
                    return self.report(m, st, None)
            for fresh in self.fresh_values(st):
                for out in self.outs:
                    modes = [{}]
                    if self.par and out == self.full and (fresh is None or fresh > self.now(st)):
                        modes.append(self.par_kw())
                    for mode in modes:
                        lab = ("run", out, fresh, *(("W", mode["max_workers"], mode["scheduler"]) if mode else ()))
                        for o in self.runs(st, out, fresh, **mode):
                            if on_run:
                                m = on_run(st, out, fresh, o)
                                if m:
                                    return self.report(m, st, lab + ((o.log,) if mode else ()))
                            succ.append((lab, o.after))
                if self.cuts and (fresh is None or (self.cut_fresh and fresh > self.now(st))):
                    out = self.full
                    base = self.run(st, out, fresh, cut=(10**9, "raise"))
                    for k in range(1, base.nops + 1):
                        modes = [dict(max_errors=me) for me in self.cut_errs]
                        if self.par:
                            modes.append(dict(max_errors=0, **self.par_kw()))
                            modes.append(dict(max_errors=0, how="die", **self.par_kw()))
                        for mode in modes:
                            how = mode.pop("how", "raise")
                            lab = ("cut", how, k, mode.get("max_errors"), mode.get("max_workers", 1), fresh)
                            for o in self.runs(st, out, fresh, cut=(k, how), **mode):
                                if on_cut:
                                    m = on_cut(st, fresh, lab, o)
                                    if m:
                                        return self.report(m, st, lab + (o.cut, o.log))
                                succ.append((lab, o.after))
            for lab, ns in succ:
                self.stats["transitions"] += 1
                c = self.canon(ns)
                if c not in parent:
                    if len(parent) > self.cap:
                        self.stats["capped"] = 1
                        continue
                    parent[c] = (st, lab)
                    q.append(c)
        return None

    def orders(self):
        """Every store state up to the order of the modified times: any subset missing, ties included."""
        n = len(self.regs)
        for combo in itertools.product((None, *range(1, n + 1)), repeat=n):
            used = sorted({c for c in combo if c is not None})
            if used == list(range(1, len(used) + 1)):
                yield tuple((None if t is None else ("val", j), t) for j, t in zip(self.regs, combo))

    def each_order(self, on_run):
        """on_run for one run from every state of orders()."""
        self.parent = {}
        for st in self.orders():
            if self.missing_source(st):
                continue
            self.stats["states"] += 1
            for fresh in self.fresh_values(st):
                for out in self.outs:
                    o = self.run(st, out, fresh)
                    self.stats["transitions"] += 1
                    m = on_run(st, out, fresh, o)
                    if m:
                        return self.report(m, st, ("run", out, fresh))
        return None

    def report(self, msg, st, lab):
        hist = [lab] if lab else []
        x = st
        while self.parent.get(x):
            x, l = self.parent[x]
            hist.append(l)
        return msg, {"args": self.args, "state": st, "event": lab, "history": hist[::-1]}


def counts(log):
    c = collections.Counter()
    for e in log:
        if len(e) >= 2 and e[0] in ("s", "r", "w"):
            c[e[0], e[1]] += 1
    return c


def check_values(h, st, out, o):
    """C03 for one successful run."""
    if ("ret",) not in o.log:
        return None
    sc = h.scratch(o.after)
    if out[0] != "none":
        want = [sc[i] for i in out[1]] if out[0] == "list" else sc[out[1]]
        if o.result != want:
            return f"output {o.result!r} differs from evaluation from scratch {want!r}"
    elif o.result is not None:
        return f"no output was requested but run returned {o.result!r}"
    for j, (v, t) in zip(h.regs, o.after):
        if h.kinds[j] in STORED and (t is None or v != sc[j]):
            return f"store of node {j} holds {v!r} (time {t}) after a successful run; from scratch: {sc[j]!r}"
    return None


def check_work(h, st, out, fresh, o):
    """C05 for one successful run."""
    if ("ret",) not in o.log:
        return None
    spec, kinds = h.spec, h.kinds
    stale, amb = worlds.stale_set(spec, h.times(st), fresh)
    if amb:
        return None
    reads, writes, calls = worlds.demand(spec, stale, plans.out_nodes(out))
    c = counts(o.log)
    if any(n > 1 for n in c.values()):
        return f"performed more than once: {[k for k, n in c.items() if n > 1]}"
    wr = {j for k, j in c if k == "w"}
    if wr != writes:
        return f"wrote {sorted(wr)} but the out-of-date stored values are {sorted(writes)}"
    cs = {j for k, j in c if k == "s"}
    stored_calls = {j for j in cs if kinds[j] == "s"}
    if stored_calls != {j for j in stale if kinds[j] == "s"}:
        return f"executed stored calls {sorted(stored_calls)}; out of date: {sorted(stale)}"
    if not cs <= calls:
        return f"executed calls {sorted(cs - calls)} that nothing out of date and no output needs (out of date: {sorted(stale)})"
    rd = {j for k, j in c if k == "r"}
    if not rd <= reads:
        return f"read stores {sorted(rd - reads)} that no executed call and no output consumes (out of date: {sorted(stale)})"
    side = {e[1] for e in o.log if len(e) == 3 and e[0] == "W"}
    if not h.stored_writer and not h.missing_source(o.after) and side <= stale:
        o2 = h.run(o.after, ("none",), fresh)
        c2 = counts(o2.log)
        if c2 or o2.error is not None:
            return f"a repeated run with no output performed {sorted(c2)} / raised {o2.error!r}"
    return None
