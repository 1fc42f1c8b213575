"""Plans with a registry over logical-clock in-memory stores; usable under the scheduler and free-running.

kinds: c call, s stored call, o source, y dependent source (written by the call it depends on), l literal, L stored literal.
"""
import datetime as dt
import zlib
from functools import lru_cache

from mc import boot, harness, plans, sched

T0 = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
CALLS = "cs"
STORED = "sL"
SOURCES = "oy"
REG = "soyL"


# The distance between two ticks of the logical clock: strictly monotone but nothing else is regular about it.
GAPS = tuple(dt.timedelta(seconds=x) for x in (0.000001, 1, 86400 * 40, 0.001, 3600, 61, 0.4, 86400, 0.000002, 86400 * 400))


@lru_cache(None)
def stamp(t, phase=0):
    """The time of tick t of the logical clock (tick 0 is T0; phase: where in GAPS the clock starts)."""
    if t is None:
        return None
    if t == 0:
        return T0
    g = GAPS[(t if t < 0 else t - 1) % len(GAPS) - len(GAPS) + phase % len(GAPS)]
    return stamp(t - 1, phase) + g if t > 0 else stamp(t + 1, phase) - g


class Cut(Exception):
    """An injected failure of one operation."""


class Dead(BaseException):
    """The process is dead: nothing after the cut has any effect."""


class MissingValue(Exception):
    pass


class Rd:
    """What a normalising store's read returns: a fresh object, never the one that was written."""

    __slots__ = ("i", "v")

    def __init__(self, i, v):
        self.i, self.v = i, v

    def __repr__(self):
        return f"Rd({self.i},{self.v!r})"


def strip(v):
    if type(v) is Rd:
        return v.v
    if isinstance(v, tuple):
        return tuple(strip(x) for x in v)
    if isinstance(v, list):
        return [strip(x) for x in v]
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items()}
    return v


@lru_cache(None)
def writer_of(spec):
    """dependent source -> the call whose side effect writes it (the first call it depends on, through literals if need be), or None."""
    kinds, edges = spec
    out = {}
    for j, k in enumerate(kinds):
        if k == "y":
            todo, w, seen = [j], None, set()
            while todo and w is None:
                x = todo.pop(0)
                if x in seen:
                    continue
                seen.add(x)
                ps = [i for i, jj, _ in edges if jj == x]
                w = next((i for i in ps if kinds[i] in CALLS), None)
                todo += [i for i in ps if kinds[i] == "l"]
            out[j] = w
    return out


class Cache(dict):
    pass


def scratch(spec, src):
    """From-scratch value of every node given source values {i: value}; None where a source has no value."""
    kinds, edges = spec
    w = writer_of(spec)
    vals = {}
    for j, k in enumerate(kinds):
        if k in "lL":
            vals[j] = ("lit", j)
        elif k == "o":
            vals[j] = src[j]
        elif k == "y":
            vals[j] = ("d", j, vals[w[j]]) if w[j] is not None else src[j]
        else:
            args, kw = [], []
            for i, jj, kk in edges:
                if jj == j:
                    for x, ch in enumerate(kk):
                        if ch == "a":
                            args.append(vals[i])
                        elif ch == "k":
                            kw.append((f"k{i}_{x}", vals[i]))
            vals[j] = ("v", j, tuple(args), tuple(kw))
    return vals


def make_store_class():
    import uberjob

    class MemStore(uberjob.ValueStore):
        __slots__ = ("w", "i", "val", "t")

        def __init__(self, w, i):
            self.w, self.i, self.val, self.t = w, i, None, None

        def read(self):
            w = self.w
            w.op("r", self.i)
            if self.t is None:
                w.log.append(("xr", self.i))
                raise MissingValue(self.i)
            v = Rd(self.i, self.val) if w.norm else self.val
            if w.norm:
                w.given.append(v)
            w.done("R", self.i)
            return v

        def write(self, value):
            w = self.w
            w.op("w", self.i)
            w.clock += 1
            self.val, self.t = strip(value), w.clock
            w.written.append((self.i, value))
            w.done("W", self.i)

        def get_modified_time(self):
            w = self.w
            w.op("m", self.i)
            t = self.t
            w.done("M", self.i)
            return stamp(t, w.phase)

        def __repr__(self):
            return f"MemStore({self.i})"

    class MemStore2(MemStore):
        """Same behaviour, another class (plans mix store types)."""

        __slots__ = ()

    return MemStore, MemStore2


_classes = None


class World:
    def __init__(self, spec, *, reg_rev=False, order=0, norm=False, dep_rev=False, scopes=None, names=None):
        global _classes
        import uberjob

        self.scopes = scopes or ((),) * len(spec[0])
        self.names = names or tuple(f"f{j}" for j in range(len(spec[0])))

        if _classes is None:
            _classes = make_store_class()
        self.spec = spec
        self.kinds, self.edges = spec
        self.phase = zlib.crc32(repr(spec).encode()) % len(GAPS)
        self.norm = norm
        self.log = []
        self.given = []
        self.written = []
        self.clock = 0
        self.cut = None  # (op number, 'raise' | 'die' | 'after')
        self.nops = 0
        self.dead = False
        self.cut_what = None
        self.points = False
        self.gate = None
        self.fail = {}  # (op kind, node) -> how many times to fail (None = always)
        self.exc_kind = None  # letter(s) of oddexc: what a failing operation raises (the n-th time: the n-th letter, cyclically)
        self.fired = {}
        self.excs = []
        self.inflight = 0
        self.hook = None
        self.mid_hook = None
        self.writer = writer_of(spec)
        self.writes_by = {}
        for y, c in self.writer.items():
            if c is not None:
                self.writes_by.setdefault(c, []).append(y)
        if order is not None:  # None: coexist with other worlds
            boot.reset_order(order)
        self.plan = plan = uberjob.Plan()
        self.registry = registry = uberjob.Registry()
        self.stores = {}
        self.nodes = nodes = []
        self.fns = {}
        for j, k in enumerate(self.kinds):
            with plan.scope(*self.scopes[j]):
                if k in REG:
                    self.stores[j] = self.new_store(j)
                if k in "lL":
                    node = plan.lit(("lit", j))
                elif k in SOURCES:
                    node = registry.source(plan, self.stores[j])
                else:
                    args, kw = [], {}
                    for i, jj, kk in self.edges:
                        if jj == j:
                            for x, ch in enumerate(kk):
                                if ch == "a":
                                    args.append(nodes[i])
                                elif ch == "k":
                                    kw[f"k{i}_{x}"] = nodes[i]
                    self.fns[j] = fn = self._fn(j)
                    node = plan.call(fn, *args, **kw)
                nodes.append(node)
        deps = [(i, j) for i, j, k in self.edges if "d" in k]
        if dep_rev:
            deps.reverse()
        for i, j in deps:
            plan.add_dependency(nodes[i], nodes[j])
        stored = [j for j, k in enumerate(self.kinds) if k in STORED]
        for j in reversed(stored) if reg_rev else stored:
            registry.add(nodes[j], self.stores[j])
        if reg_rev:  # also put the sources last
            m = registry.mapping
            for j in [j for j, k in enumerate(self.kinds) if k in SOURCES]:
                m[nodes[j]] = m.pop(nodes[j])
        self.mark = boot._order["n"]

    # ------------------------------------------------------------------ operations
    def _fn(self, j):
        def f(*args, **kwargs):
            return self.call(j, args, kwargs)

        f.__name__ = f.__qualname__ = self.names[j]
        return f

    def call(self, j, args, kwargs):
        self.op("s", j, args, kwargs)
        v = ("v", j, tuple(strip(a) for a in args), tuple((k, strip(a)) for k, a in kwargs.items()))
        for y in self.writes_by.get(j, ()):
            self.side_write(y, ("d", y, v))
            self.log.append(("W", y, "side"))
        self.done("e", j)
        return v

    def new_store(self, j):
        return _classes[j % 2](self, j)

    def side_write(self, y, v):
        self.clock += 1
        st = self.stores[y]
        st.val, st.t = v, self.clock

    def stamp(self, t):
        return stamp(t, self.phase)

    def op(self, kind, j, args=None, kwargs=None):
        t = sched.cur()
        self.log.append((kind, j, t.id if t else None))
        if self.hook:
            self.hook(kind, j, args, kwargs)
        if t is not None and self.points and (kind != "m" or self.points == "m"):
            self.inflight += 1
            try:
                if self.gate is not None:
                    self.gate.hold(t, (kind, j))
                else:
                    sched.S.yield_(t)
            finally:
                self.inflight -= 1
            if self.mid_hook:
                self.mid_hook(kind, j)
        if self.dead:
            raise Dead()
        f = self.fail.get((kind, j), 0)
        if f != 0:
            n = self.fired[(kind, j)] = self.fired.get((kind, j), 0) + 1
            if f is None or n <= f:
                e = self.make_exc(kind, j, n)
                self.excs.append((kind, j, e))
                self.log.append(("x" + kind, j))
                raise e
        self._maybe_cut(kind, j, before=True)

    def make_exc(self, kind, j, n):
        if not self.exc_kind:
            return Cut(kind, j, n)
        from mc import oddexc

        return oddexc.make(self.exc_kind[(n - 1) % len(self.exc_kind)], self, j, n)

    def done(self, kind, j):
        self.log.append((kind, j))
        if kind in "We":
            self._maybe_cut(kind, j, before=False)

    def _maybe_cut(self, kind, j, before):
        c = self.cut
        if c is None:
            return
        self.nops += 1
        if self.nops == c[0]:
            self.cut_what = (kind, j)
            self.log.append(("cut", kind, j))
            if c[1] == "die":
                self.dead = True
                raise Dead()
            e = Cut(kind, j)
            self.excs.append((kind.lower(), j, e))
            raise e

    # ------------------------------------------------------------------ state
    def get(self):
        return tuple((self.stores[j].val, self.stores[j].t) for j in sorted(self.stores))

    def set(self, st, clock):
        for j, (v, t) in zip(sorted(self.stores), st):
            s = self.stores[j]
            s.val, s.t = v, t
        self.clock = clock

    def reset_run(self):
        self.log = []
        self.given = []
        self.written = []
        self.nops = 0
        self.dead = False
        self.cut_what = None
        self.fired = {}
        self.excs = []
        self.inflight = 0
        boot._order["n"] = self.mark

    def run(self, out=("none",), fresh=None, **kw):
        import uberjob

        kw.setdefault("max_workers", 1)
        return uberjob.run(
            self.plan, registry=self.registry, output=plans.build_out(out, self.nodes), fresh_time=self.stamp(fresh),
            progress=kw.pop("progress", None), **kw,
        )


# ---------------------------------------------------------------------- declarative semantics
@lru_cache(None)
def reg_up(spec):
    """node -> registered strict ancestors."""
    anc = plans.ancestors(spec)
    return {j: frozenset(i for i in anc[j] if spec[0][i] in REG) for j in range(len(spec[0]))}


def stale_set(spec, times, fresh):
    """The registered nodes that are out of date.  times: {node: time or None}.

    Returns (stale, ambiguous): ambiguous is true when the text of C05 does not settle the answer (fresh_time against a
    dependent source that has no stored value or source upstream).
    """
    kinds = spec[0]
    up = reg_up(spec)
    stale = set()
    ambiguous = False
    for j, k in enumerate(kinds):
        if k not in REG:
            continue
        t = times[j]
        if t is None or any(i in stale for i in up[j]):
            stale.add(j)
        elif any(times[i] > t for i in up[j]):
            stale.add(j)
        elif fresh is not None and t < fresh:
            if k in STORED:
                stale.add(j)
            elif k == "y" or any(True for i, jj, _ in spec[1] if jj == j):
                if up[j]:
                    stale.add(j)
                else:
                    ambiguous = True
    return frozenset(stale), ambiguous


def demand(spec, stale, outs):
    """(reads, writes, calls) a successful run needs: every out-of-date stored value is rebuilt, plus the output.

    reads/calls are exact sets by the text of C05: a call runs only where needed to rebuild an out-of-date stored value or to
    produce the output from stored values; a store is read only if an executed call or the output consumes it.
    Dependent sources that are out of date need the calls they depend on.
    """
    kinds, edges = spec
    writes = {j for j in stale if kinds[j] in STORED}
    calls, reads = set(), set()
    argp = {j: set() for j in range(len(kinds))}
    depp = {j: set() for j in range(len(kinds))}
    for i, j, k in edges:
        if k.replace("d", ""):
            argp[j].add(i)
        if "d" in k:
            depp[j].add(i)
    seen_val, seen_done = set(), set()

    def need_value(i):
        """Someone consumes the value of i."""
        if i in seen_val:
            return
        seen_val.add(i)
        k = kinds[i]
        if k in REG:
            reads.add(i)
            if i in stale:
                need_done(i)
        else:
            need_done(i)

    def need_done(i):
        """i (or, for a registered node, its rebuilding) has to happen in this run."""
        if i in seen_done:
            return
        seen_done.add(i)
        k = kinds[i]
        if k in REG and i not in stale:
            return
        if k in CALLS:
            calls.add(i)
            for a in argp[i]:
                need_value(a)
        for d in depp[i] | (argp[i] if k not in CALLS else set()):
            if kinds[d] in REG:
                if d in stale:
                    need_done(d)
            else:
                need_done(d)

    for j in stale:
        need_done(j)
    for o in outs:
        need_value(o)
    return reads, writes, calls


class SCase:
    """A World as a schedulable case (same interface as harness.Case)."""

    def __init__(self, spec, state=(), *, W=2, scheduler=None, out=("none",), fresh=None, order=0, norm=True, reg_rev=False,
                 fail=None, retry=None, max_errors=0, stale_W=None, cut=None, dep_rev=False, progress=None, hook=None,
                 start_fail=None, mpoints=False, gate=False, scopes=None, names=None, exc=None):
        self.use_gate = gate
        self.quiet_check = None
        self.start_fail = start_fail
        self.spec, self.W, self.scheduler, self.out, self.fresh = spec, W, scheduler, out, fresh
        self.kw = dict(max_workers=W, scheduler=scheduler, retry=retry, max_errors=max_errors)
        if stale_W:
            self.kw["stale_check_max_workers"] = stale_W
        self.retry, self.max_errors, self.stale_W = retry, max_errors, stale_W
        self.args = dict(spec=spec, state=state, W=W, scheduler=scheduler, out=out, fresh=fresh, order=order, reg_rev=reg_rev,
                         fail=fail, retry=retry, max_errors=max_errors, stale_W=stale_W, cut=cut)
        self.world = World(spec, reg_rev=reg_rev, order=order, norm=norm, dep_rev=dep_rev, scopes=scopes, names=names)
        self.world.points = "m" if mpoints else True
        self.world.fail = {tuple(k): v for k, v in dict(fail or ()).items()}
        self.world.cut = cut
        if exc:
            self.world.exc_kind = self.args["exc"] = exc
        self.times = dict(zip(sorted(self.world.stores), state))
        self.canc = plans.call_ancestors(spec)
        self.progress = progress
        self.error = self.result = None
        self.src_ver = 1
        self.exc = {}

    @property
    def log(self):
        return self.world.log

    def describe(self):
        return self.args

    def init_state(self):
        """Store contents consistent with the modified times: values are those of an earlier generation of the sources."""
        w = self.world
        src_new = {j: ("src", j, 1) for j, k in enumerate(self.spec[0]) if k in SOURCES}
        vals = scratch(self.spec, src_new)
        for j, t in self.times.items():
            st = w.stores[j]
            st.t = t
            st.val = None if t is None else vals[j]
        w.clock = 100

    def reset(self):
        self.world.reset_run()
        self.init_state()
        self.error = self.result = None

    def main(self):
        w = self.world
        try:
            self.result = w.run(self.out, self.fresh, progress=self.progress, **self.kw)
            w.log.append(("ret",))
        except sched.SchedAbort:
            raise
        except BaseException as e:
            self.error = e
            w.log.append(("raise",))

    def body(self, s):
        self.reset()
        if self.start_fail:
            s.fail_start = harness.fail_kth(self.start_fail)
        if self.use_gate:
            self.world.gate = harness.Gate(self.quiet_check)
            s.on_quiet = self.world.gate.quiet
        return self.main

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=20_000):
        for s, ch in sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix, max_steps=max_steps):
            yield s, ch
            self.error = None

    def once(self, choices, budget, trace=None):
        return sched.run_once(self.body, choices, budget, trace=trace)
