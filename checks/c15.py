"""C15: progress observers receive an exact, well-formed account of every run."""
import collections

from checks.common import MID, SMALL, shape_cases, subsets
from checks.stored import R as REGS
from checks.stored import states
from mc import harness as H
from mc import plans, sched, worlds
from mc.oddexc import EXCEPTIONS
from mc.core import R

LEVEL = "model_checking"
ASSUMPTIONS = ["the function name in a scope is recognised by the qualified name it ends with",
               "thread switches only at CPython 3.12 switch points; deviation bounds as in DESIGN.md"]


def make_rec():
    from uberjob.progress import Progress, ProgressObserver

    class Rec(ProgressObserver):
        """Records every notification it receives, with switch points before and after."""

        def __init__(self, case, name):
            self.case, self.name = case, name
            case.members.append(self)
            self.log = []

        def note(self, *e):
            t = sched.cur()
            if t is not None and self.case.rec_points:
                sched.S.yield_(t)
            self.log.append(e)
            self.case.world.log.append(("P", self.name, *e))

        def __enter__(self):
            self.note("enter")
            return self

        def __exit__(self, *a):
            self.note("exit")

        def increment_total(self, *, section, scope, amount):
            self.note("total", section, scope, amount)

        def increment_running(self, *, section, scope):
            self.note("running", section, scope)

        def increment_completed(self, *, section, scope):
            self.note("completed", section, scope)

        def increment_failed(self, *, section, scope, exception):
            self.note("failed", section, scope, exception)

    return Rec, Progress


class PCase(worlds.SCase):
    def __init__(self, spec, state=(), *, how="one", rec_points=False, bad_transform=False, dry=False, base=False, loop=False, reg=True, **kw):
        super().__init__(spec, state, **kw)
        self.how, self.rec_points, self.base, self.loop, self.dry, self.bad = how, rec_points, base, loop, dry, bad_transform
        self.args.update(how=how, base=base, dry=dry, bad_transform=bad_transform, loop=loop, scopes=kw.get("scopes"), names=kw.get("names"),
                         reg=reg, start_fail=kw.get("start_fail"))
        if base:
            self.kw.setdefault("retry", None)
        if dry:
            self.kw["dry_run"] = True
        if bad_transform:
            self.kw["transform_physical"] = self.poison
        if loop:
            self.world.plan.add_dependency(self.world.nodes[-1], self.world.nodes[0])
        self.reg = reg
        if not reg:
            self.world.registry = None
        self.members = []

    def poison(self, plan, node):
        raise ZeroDivisionError("transform")

    def reset(self):
        super().reset()
        self.members = []
        w = self.world
        if self.base:
            w.hook = self.boom

    def boom(self, kind, j, args, kw):
        if kind == "s" and j == self.base - 1:
            raise H.BoomBase(j)

    def make_progress(self):
        import uberjob
        from uberjob.progress import composite_progress, null_progress

        Rec, Progress = make_rec()
        mk = lambda n: Progress(lambda: Rec(self, n))
        h = self.how
        if h == "one":
            return mk("A")
        if h == "pair":
            return (mk("A"), mk("B"))
        if h == "list1":
            return [mk("A")]
        if h == "gen":
            return (mk(n) for n in "ABC")
        if h == "nest":
            return [mk("A"), composite_progress(mk("B"), composite_progress(mk("C"), null_progress), null_progress)]
        if h == "same":
            p = mk("A")
            return (p, p)
        if h == "html":
            return (mk("A"), uberjob.progress.html_progress(lambda b: None), mk("B"))
        raise AssertionError(h)

    def main(self):
        self.progress = self.make_progress()
        super().main()


def short(x):
    return x.rsplit(".", 1)[-1] if isinstance(x, str) else None


def norm(scope, names):
    """(user scope, function name) of the first element that names a function of the harness, and what follows it."""
    for i, x in enumerate(scope):
        if short(x) in names:
            return scope[:i] + (short(x),), scope[i + 1:]
    return None, scope


def key_of(e):
    # the exception of a failed notification by identity: the log keeps it alive
    return repr(e[:3] + (type(e[3]).__name__, id(e[3]))) if e[0] == "failed" else repr(e)


def member_oracle(c, m, s):
    log = m.log
    ended = s is None or not (s.deadlock or s.livelock)
    if not log or log[0] != ("enter",):
        return f"the first notification is {log[:1]}, not entering the observer"
    if log.count(("enter",)) != 1:
        return "the observer was entered more than once"
    if log.count(("exit",)) > 1:
        return "the observer was exited more than once"
    if ("exit",) in log and log[-1] != ("exit",):
        return f"notifications after the exit: {log[log.index(('exit',)) + 1:][:2]}"
    if ended and ("exit",) not in log:
        return "the observer was never exited"
    tot, run, comp, fail = (collections.Counter() for _ in range(4))
    begun = set()
    for e in log[1:]:
        if e[0] == "exit":
            continue
        key = e[1:3]
        if key[0] not in ("stale", "run") or type(key[1]) is not tuple:
            return f"malformed notification {e!r}"
        if e[0] == "total":
            if key in begun:
                return f"a total for {key} was announced after something in it was reported running"
            if not e[3] >= 0:
                return f"malformed total {e!r}"
            tot[key] += e[3]
        elif e[0] == "running":
            if not tot[key]:
                return f"{key} reported running before any total was announced"
            begun.add(key)
            run[key] += 1
            if run[key] > tot[key]:
                return f"{key}: {run[key]} reported running, total {tot[key]}"
        else:
            (comp if e[0] == "completed" else fail)[key] += 1
            if comp[key] + fail[key] > run[key]:
                return f"{e[0]} reported for {key} without anything running"
            if e[0] == "failed" and not isinstance(e[3], Exception):
                return f"failed notification carries {type(e[3])}"
    if not ended:
        return None
    if not c.base and not (c.world.cut and c.world.cut[1] == "die"):
        for key in run:
            if comp[key] + fail[key] != run[key]:
                return f"{key}: reported running {run[key]} times, completed {comp[key]}, failed {fail[key]}, when run returned"
    return None


def oracle(c, s):
    ms = c.members
    want = {"one": "A", "list1": "A", "pair": "AB", "gen": "ABC", "nest": "ABC", "same": "AA", "html": "AB"}[c.how]
    if [m.name for m in ms] != list(want):
        return f"observers created: {[m.name for m in ms]}, expected {list(want)}"
    for m in ms:
        msg = member_oracle(c, m, s)
        if msg:
            return f"observer {m.name} of {c.how!r}: {msg}"
    if s is not None and (s.deadlock or s.livelock):
        return None
    ref = collections.Counter(map(key_of, ms[0].log))
    for m in ms[1:]:
        x = collections.Counter(map(key_of, m.log))
        if x != ref:
            return f"members of a composite received different notifications: {sorted(((ref - x) + (x - ref)).elements())[:3]}"
    return account(c, ms[0].log)


def account(c, log):
    """Totals and outcomes against what the calls and stores saw."""
    w = c.world
    ok = ("ret",) in w.log and not c.dry
    names = set(w.names) | {"source"}
    kinds = c.spec[0]
    uname = {j: w.scopes[j] + ("source" if k in worlds.SOURCES else w.names[j],) for j, k in enumerate(kinds) if k not in "lL"}
    tot, comp, fail = (collections.Counter() for _ in range(3))
    for e in log:
        if e[0] == "total":
            tot[e[1:3]] += e[3]
        elif e[0] == "completed":
            comp[e[1:3]] += 1
        elif e[0] == "failed":
            fail[e[1:3]] += 1
    if ok:
        for key in tot:
            if comp[key] != tot[key] or fail[key]:
                return f"after a successful run {key} has total {tot[key]}, completed {comp[key]}, failed {fail[key]}"
    # the stale section: the calls examined
    if any(k[0] == "stale" for k in tot) or (ok and c.reg and w.registry):
        got = collections.Counter()
        for (sec, scope), n in tot.items():
            if sec == "stale":
                key, rest = norm(scope, names)
                if key is not None:
                    got[key] += n
        want = collections.Counter(uname[j] for j in uname)
        if got != want:
            return f"stale totals {dict(got)}, calls examined {dict(want)}"
        gathers = sum(n for (sec, scope), n in tot.items() if sec == "stale") - sum(got.values())
        if c.out[0] in ("none", "node") and gathers:
            return f"{gathers} calls in the stale totals that are not in the plan"
    # the run section: the calls executed
    att = collections.Counter()  # by scope: outcomes as the calls themselves saw them
    bad = collections.Counter()
    ends = {(("s" if e[0] == "e" else e[0].lower()), e[1]) for e in w.log if len(e) == 2 and e[0] in "eRW"}
    starts = {(e[0], e[1]) for e in w.log if len(e) == 3 and e[0] in ("s", "r", "w")}
    for kind, j in starts:
        key = (kind, uname[j] if kind == "s" else w.scopes[j])
        (att if (kind, j) in ends else bad)[key] += 1
    gtot, gcomp, gfail = (collections.Counter() for _ in range(3))
    for src, dst in ((tot, gtot), (comp, gcomp), (fail, gfail)):
        for (sec, scope), n in src.items():
            if sec != "run":
                continue
            last = short(scope[-1])
            if last in ("read", "write") and "MemStore" in scope[-1]:
                key, rest = norm(scope[:-1], names)
                dst[last[0], scope[:-1] if key is None else key[:-1]] += n
            elif last in names:
                dst["s", scope[:-1] + (last,)] += n
    if not c.base and gcomp != att:
        return f"completed {dict(gcomp)}, but the calls that ended normally are {dict(att)}"
    if not c.base and gfail != bad:
        return f"failed {dict(gfail)}, but the calls that failed are {dict(bad)}"
    if ok and gtot != att:
        return f"run totals {dict(gtot)}, but the calls executed are {dict(att)}"
    if att - gtot or bad - gtot:
        return f"calls were executed in scopes with no total: {dict((att + bad) - gtot)}"
    # every call is inside the bracket of its own scope
    out = collections.Counter()
    fly = collections.Counter()
    first = c.members[0].name
    for e in w.log:
        if e[0] == "P" and e[1] == first and e[2] in ("running", "completed", "failed") and e[3] == "run":
            last = short(e[4][-1])
            if last in names:
                out[e[4][:-1] + (last,)] += 1 if e[2] == "running" else -1
        elif e[0] == "s":
            fly[uname[e[1]]] += 1
            if c.how != "same" and fly[uname[e[1]]] > out[uname[e[1]]]:
                return f"a call in scope {uname[e[1]]} was executing without being reported running"
        elif e[0] in ("e", "xs") and len(e) == 2:
            fly[uname[e[1]]] -= 1
    return None


def seen(c):
    return tuple((repr(e[2:5]) if e[2] == "failed" else repr(e[2:])) if e[0] == "P" else e[:2] for e in c.log)


def run_task(task):
    return H.run_cases(task, oracle, make=PCase, seen=seen)


def replay(r, v):
    H.replay_case(r, v, oracle, PCase)


coverage = H.coverage

SC = {
    "flat": lambda n: ((),) * n,
    "mixed": lambda n: tuple([("a",), ("a", 1), (), ("b", ("t", None)), (2.5,), ("a",)][j % 6] for j in range(n)),
    "shared": lambda n: (("x", "y"),) * n,
    "eq": lambda n: tuple([(1,), (True,), (1.0,)][j % 3] for j in range(n)),
}
NM = {"own": lambda n: None, "same": lambda n: ("g",) * n, "two": lambda n: tuple("gh"[j % 2] for j in range(n))}


def allp(spec):
    return ("list", tuple(range(len(spec[0]))))


def pairs(i):
    ks, ns = list(SC), list(NM)
    return ks[i % len(ks)], ns[(i // 2) % len(ns)]


def tasks(tier, seed):
    q = tier == "quick"
    T = []
    hows = ("one", "pair", "nest", "gen", "list1", "same", "html")
    i = 0

    def kw(spec, **k):
        nonlocal i
        i += 1
        s, n = pairs(i)
        k.setdefault("how", hows[i % len(hows)])
        N = len(spec[0])
        return H.kwt(spec=spec, scopes=SC[s](N), names=NM[n](N), **k)

    # plain plans: all relative timings, failing subsets, limits
    plain, ops, recp = [], [], []
    for n in SMALL + MID:
        spec = plans.SHAPES[n]
        calls = [j for j, k in enumerate(spec[0]) if k == "c"]
        for W in (1, 2, 3):
            plain.append(kw(spec, W=W, out=allp(spec), reg=bool(i % 2)))
        for fs in list(subsets(calls, 1, 2)):
            for me in (0, 1, None):
                plain.append(kw(spec, W=2, out=allp(spec), fail=tuple((("s", j), None) for j in fs), max_errors=me, scheduler=(None, "random")[i % 2]))
        for j in calls:
            plain.append(kw(spec, W=2, out=allp(spec), fail=((("s", j), 1),), retry=2))
            plain.append(kw(spec, W=2, out=allp(spec), fail=((("s", j), None),), retry=2, max_errors=None))
            plain.append(kw(spec, W=2, out=("none",), base=j + 1, max_errors=None))
        for k in ({"bad_transform": True}, {"dry": True}, {"loop": True}, {"start_fail": 1}, {"start_fail": 2}):
            plain.append(kw(spec, W=2, out=allp(spec), how="pair" if "start_fail" in k else hows[i % 6], **k))
    T += H.chunk(plain, (H.B(0, 2 if q else None, cap=400 if q else 5000),), 12, "plain-")
    T += H.chunk(plain[::3 if q else 1], (H.B(1, 0, b=0, ops="exec", cap=200 if q else 3000),), 4, "plainops-")
    # registries: every stale state
    st = []
    for n in ("src1", "chain", "fork", "join", "diamond", "dsrcs", "slit", "litarg", "kw", "unstored", "both", "slitdep", "lone", "lone2", "dsrcl"):
        spec = REGS[n]
        for x in states(spec):
            st.append(kw(spec, state=x, W=2, out=allp(spec), scheduler=(None, "random")[i % 2], mpoints=bool(i % 2)))
            st.append(kw(spec, state=x, W=2, out=("none",), dry=not i % 4))
        x = states(spec)[0]
        calls = [j for j, k in enumerate(spec[0]) if k in "cs"]
        rg = [j for j, k in enumerate(spec[0]) if k in worlds.REG]
        for op, js in (("s", calls), ("w", rg), ("r", rg), ("m", [j for j in rg if spec[0][j] != "L"])):
            for j in js:
                for me in (0, None):
                    st.append(kw(spec, state=x, W=2, out=allp(spec), fail=(((op, j), None),), max_errors=me, mpoints=op == "m"))
                st.append(kw(spec, state=x, W=2, out=allp(spec), fail=(((op, j), 1),), retry=2))
    T += H.chunk(st, (H.B(0, 2, cap=120 if q else 3000),), 12, "reg-")
    T += H.chunk(st[::5 if q else 1], (H.B(1, 0, b=0, ops="exec", cap=120 if q else 3000),), 4, "regops-")
    # every small registry plan, every output node
    from checks.histcommon import small_specs

    small = []
    for spec in small_specs(3, "oscyl"):
        xs = states(spec)
        for out in (("none",), allp(spec), *(("node", j) for j in range(len(spec[0])))):
            small.append(kw(spec, state=xs[i % len(xs)], W=1 + i % 2, out=out))
    T += H.chunk(small, (H.B(0, 0, b=0, cap=2 if q else 200),), 150 if q else 20, "small-")
    # failures of every kind, of calls, stores and modified-time queries, as several members see them
    odd = []
    for a, e in enumerate(EXCEPTIONS):
        for n in ("pair", "join"):
            spec = plans.SHAPES[n]
            calls = [j for j, k in enumerate(spec[0]) if k == "c"]
            for b, fs in enumerate(subsets(calls, 1, 2)):
                odd.append(kw(spec, W=1 + (a + b) % 2, out=allp(spec), how=("pair", "nest", "html")[b % 3], exc=e,
                              fail=tuple((("s", j), None) for j in fs), max_errors=(0, None)[b % 2]))
            odd.append(kw(spec, W=1 + a % 2, out=allp(spec), how="nest", exc=e, fail=((("s", calls[0]), 2),), retry=2 + a % 2))
            f = EXCEPTIONS[(a * 7 + 3) % len(EXCEPTIONS)]
            odd.append(kw(spec, W=2, out=allp(spec), how="pair", exc=e + f, fail=((("s", calls[0]), 2), (("s", calls[-1]), 1)), retry=2, max_errors=None))
        for n in ("src1", "chain"):
            spec = REGS[n]
            rg = [j for j, k in enumerate(spec[0]) if k in worlds.REG]
            x = states(spec)[a % len(states(spec))]
            for op in "rwms":
                for j in rg if op != "s" else [j for j, k in enumerate(spec[0]) if k in "cs"]:
                    odd.append(kw(spec, state=x, W=1 + a % 2, out=allp(spec), how=("pair", "nest")[j % 2], exc=e, fail=(((op, j), None),),
                                  max_errors=(0, None)[(a + j) % 2]))
                odd.append(kw(spec, state=x, W=2, out=allp(spec), how="pair", exc=e, fail=tuple(((op, j), 1) for j in rg), retry=(None, 2)[a % 2]))
    T += H.chunk(odd, (H.B(0, 0 if q else 2, cap=100 if q else 2000),), 80 if q else 20, "odd-")
    # many calls, in many scopes or in one
    many = []
    for n, pat in ((101, "each"), (150, "each"), (300, "few"), (300, "one"), (600, "each")):
        kinds, edges = "c" * (n - 1), tuple((j, n - 1, "a") for j in range(n - 1))
        spec = (kinds + "c", edges)
        sc = tuple({"each": ("s", j), "few": ("s", j % 7), "one": ("s",)}[pat] for j in range(n))
        for W in (1, 3):
            many.append(H.kwt(spec=spec, scopes=sc, names=("g",) * n, W=W, out=("node", n - 1), how="pair"))
            many.append(H.kwt(spec=spec, scopes=sc, names=("g",) * n, W=W, out=("node", n - 1), fail=tuple((("s", j), None) for j in range(0, n, 3)), max_errors=None))
    for n in (40, 130):
        spec = ("o" + "s" * n, tuple((0, j + 1, "a") for j in range(n)))
        sc = tuple(("s", j) for j in range(n + 1))
        for x in ((1,) + (None,) * n, (1,) + (None, 2) * (n // 2), (1,) + (2,) * n):
            many.append(H.kwt(spec=spec, scopes=sc, names=("g",) * (n + 1), state=x, W=2, out=("none",)))
    T += H.chunk(many, (H.B(0, 0, r=0, b=0, cap=3),), 3, "many-")
    # switch points inside the observers
    for n in ("join", "parallel", "diamond", "skip"):
        spec = plans.SHAPES[n]
        for how in ("one", "nest"):
            recp.append(kw(spec, W=2, out=allp(spec), how=how, rec_points=True))
            recp.append(kw(spec, W=2, out=allp(spec), how=how, rec_points=True, fail=((("s", 0), None),), max_errors=None))
    T += H.chunk(recp, (H.B(0, 2, cap=400 if q else 20000), H.B(1, 1, cap=200 if q else 20000)), 1, "rec-")
    return T


def free(r, tier, seed):
    cs = []
    for n in ("join", "diamond", "parallel"):
        spec = plans.SHAPES[n]
        cs.append(H.kwt(spec=spec, W=3, out=allp(spec), how="nest"))
        cs.append(H.kwt(spec=spec, W=3, out=allp(spec), how="pair", fail=((("s", 0), None),), max_errors=None))
    for x in states(REGS["diamond"]):
        cs.append(H.kwt(spec=REGS["diamond"], state=x, W=3, out=allp(REGS["diamond"]), how="pair"))
    return H.free_traces(r, oracle, cs, make=PCase)
