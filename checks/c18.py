"""C18: staleness depends only on instants, not on the time zone or the naive/aware form of the datetimes."""
import itertools
import os
import pickle
import subprocess
import sys

from mc import boot
from mc.core import R

LEVEL = "exploration"
SCHED = False
BUDGET = {"quick": 240, "thorough": 820}
TASK_LIMIT = 900.0
ASSUMPTIONS = [
    "each process time zone is set in the environment before the interpreter starts",
    "Python's own reading of a naive local datetime (PEP 495, with fold) defines the instant it denotes; values on which the platform's C library "
    "and the zone database disagree are skipped and counted",
    "datetimes within a UTC offset of datetime.min and datetime.max need only not break the run and stay on their side of every ordinary instant",
]

# (TZ setting, the zone it means)
ZONES = (
    ("America/New_York", "America/New_York"), ("Australia/Lord_Howe", "Australia/Lord_Howe"), ("Asia/Kolkata", "Asia/Kolkata"), ("UTC", "UTC"),
    ("Europe/Dublin", "Europe/Dublin"), ("Pacific/Kiritimati", "Pacific/Kiritimati"), ("EST5EDT,M3.2.0,M11.1.0", "America/New_York"),
    ("Africa/Casablanca", "Africa/Casablanca"), ("America/St_Johns", "America/St_Johns"), ("Pacific/Apia", "Pacific/Apia"),
    ("Asia/Pyongyang", "Asia/Pyongyang"), ("Antarctica/Troll", "Antarctica/Troll"),
)
QUICK_ZONES = 7
US = 1_000_000
KINDS = ("direct", "plain", "touched", "dep")


def transitions(zone):
    """The instants (seconds) of the zone's offset changes in 2011..2018, at most two backward and one forward, and an ordinary one."""
    import datetime as dt
    import zoneinfo

    z = zoneinfo.ZoneInfo(zone)
    off = lambda s: dt.datetime.fromtimestamp(s, z).utcoffset()
    out = {}
    t0 = int(dt.datetime(2011, 1, 1, tzinfo=dt.timezone.utc).timestamp())
    step = 6 * 3600
    for s in range(t0, t0 + 8 * 366 * 86400, step):
        if off(s) != off(s + step):
            lo, hi = s, s + step
            while hi - lo > 1:
                m = (lo + hi) // 2
                if off(m) == off(lo):
                    lo = m
                else:
                    hi = m
            d = int((off(hi) - off(lo)).total_seconds())
            lst = out.setdefault(d, [])
            if len(lst) < 1:
                lst.append(hi)
    # a winter and a summer instant, so that a single fixed local offset is wrong for one of them
    res = [("jan", t0 + 3 * 366 * 86400 + 15 * 86400, 3600), ("jul", t0 + 3 * 366 * 86400 + 196 * 86400, 3600)]
    for d in sorted(out, key=abs):
        res += [("back" if d < 0 else "forward", s, abs(d)) for s in out[d]]
    return res


def instants(at, width, deep):
    """Microseconds since the epoch around a transition: the repeated (or skipped) hour from every side, and neighbours."""
    w = width
    xs = [-w - 1, -w, -w / 2, -1, -0.000001, 0, 0.000001, w / 2, w - 1, w]
    if deep:
        xs += [-1.5, 1, w + 1, -13 * 3600, 13 * 3600]
    return sorted({round((at + x) * US) for x in xs})


def reps(zone):
    import datetime as dt
    import zoneinfo

    z = zoneinfo.ZoneInfo(zone)
    other = zoneinfo.ZoneInfo("Australia/Lord_Howe" if zone != "Australia/Lord_Howe" else "America/New_York")
    epoch = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    utc = lambda us: epoch + dt.timedelta(microseconds=us)

    class NullTz(dt.tzinfo):
        def utcoffset(self, d):
            return None

        dst = tzname = utcoffset

    null = NullTz()
    fixed = lambda **k: dt.timezone(dt.timedelta(**k))
    return {
        "naive": lambda us: utc(us).astimezone(z).replace(tzinfo=None),
        "utc": utc,
        "zone": lambda us: utc(us).astimezone(z),
        "+14": lambda us: utc(us).astimezone(fixed(hours=14)),
        "other": lambda us: utc(us).astimezone(other),
        "-11:59:59": lambda us: utc(us).astimezone(fixed(hours=-11, minutes=-59, seconds=-59)),
        "nulltz": lambda us: utc(us).astimezone(z).replace(tzinfo=null),
    }


DREPS = ("naive", "utc", "zone", "+14", "nulltz")
QREPS = ("naive", "utc", "zone", "+14")


def stamped(r, zone, us, names):
    """(us, rep, datetime) for every instant and representation the platform reads as that instant."""
    import datetime as dt

    out = []
    rp = reps(zone)
    for u in us:
        for n in names:
            v = rp[n](u)
            back = v.astimezone(dt.timezone.utc)
            if back != rp["utc"](u):
                r.n["platform_disagrees"] += 1
                continue
            out.append((u, n, v))
    return out


def tasks(tier, seed):
    zs = ZONES if tier == "thorough" else ZONES[:QUICK_ZONES]
    out = []
    for tz, zone in zs:
        nt = len(transitions(zone))
        for i in range(nt):
            if tier == "thorough" or i > 1:  # the ordinary January and July instants get the small set in the quick tier
                for kind in KINDS if tier == "thorough" else KINDS[:1]:
                    out.append(("decide", tz, zone, i, (kind,), tier))
            if tier != "thorough":
                out.append(("decide", tz, zone, i, KINDS[i > 1:], "mini"))
            out.append(("chain", tz, zone, i, tier))
        out.append(("files", tz, zone, tier))
        out.append(("sentinel", tz, zone, tier))
    return out


def run_task(t):
    env = {**os.environ, "TZ": t[1], "MC_BOOT": "1"}
    p = subprocess.run([sys.executable, "-B", "-m", "checks.c18"], input=pickle.dumps(t), capture_output=True, env=env, cwd=boot.VERIF)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode(errors="replace")[-600:])
    return pickle.loads(p.stdout)


def child(t):
    r = R()
    {"decide": decide, "chain": chain, "files": files, "sentinel": sentinel, "one": one}[t[0]](r, *t[1:])
    return r


# ---- stores and plans
def stores():
    import uberjob

    class M(uberjob.ValueStore):
        __slots__ = ("t", "hit")

        def __init__(self, t):
            self.t, self.hit = t, 0

        def read(self):
            return 0

        def write(self, v):
            self.hit += 1

        def get_modified_time(self):
            return self.t

    return M


def ident(*a):
    return 0


class Pair:
    """A plan with, for each source time and each stored time, one stored node downstream; `hits` says which were rewritten."""

    def __init__(self, kind, ups, downs):
        import uberjob

        M = stores()
        self.kind, self.ups, self.downs = kind, ups, downs
        p = self.plan = uberjob.Plan()
        g = self.reg = uberjob.Registry()
        self.cells = []
        self.touched = []
        for i, (_, _, u) in enumerate(ups):
            s = g.source(p, M(u))
            if kind == "plain":
                s = p.call(ident, p.call(ident, s))
            for j, (_, _, d) in enumerate(downs):
                m = M(d)
                if kind == "touched":
                    # a source that a call is known to write: the call runs exactly when the source is out of date
                    w = p.call(self.touch, len(self.cells), s)
                    p.add_dependency(w, g.source(p, m))
                elif kind == "dep":
                    c = p.call(ident)
                    p.add_dependency(s, c)
                    g.add(c, m)
                else:
                    g.add(p.call(ident, s), m)
                self.cells.append((i, j, m))

    def touch(self, n, _):
        self.touched.append(n)

    def run(self, fresh, W=1):
        import uberjob

        self.touched = []
        for _, _, m in self.cells:
            m.hit = 0
        uberjob.run(self.plan, registry=self.reg, fresh_time=fresh, max_workers=W, progress=None)
        if self.kind == "touched":
            t = set(self.touched)
            return [n in t for n in range(len(self.cells))]
        return [m.hit > 0 for _, _, m in self.cells]


def say(v):
    us, rep, d = v
    return f"{d.isoformat()} fold={d.fold} [{rep}]" if d is not None else "None"


def decide(r, tz, zone, i, kinds, tier):
    deep = tier == "thorough"
    name, at, width = transitions(zone)[i]
    us = instants(at, width, deep)
    if tier == "mini":
        us = us[1:9:2] + us[4:5]
    vals = stamped(r, zone, us, DREPS if deep else QREPS[:2] if tier == "mini" else QREPS)
    fresh = [(None, "none", None)] + vals
    for kind in kinds:
        pr = Pair(kind, vals, vals)
        for n, f in enumerate(fresh):
            try:
                got = pr.run(f[2], W=(1, 4)[n % 5 == 4])
            except Exception as e:
                r.violation(f"TZ={tz}: the run failed: {e!r} {e.__cause__!r}", key=f"run fails {type(e.__cause__ or e).__name__}",
                            one=(tz, zone, kind, [[x[0], x[1]] for x in (vals[0], vals[0], f)]))
                return
            for (a, b, _), g in zip(pr.cells, got):
                u, d = vals[a], vals[b]
                want = max(u[0], f[0] if f[0] is not None else u[0]) > d[0]
                r.n["evaluations"] += 1
                if {u[1], d[1], f[1]} - {"none"} != {"naive"} and not (u[0] == d[0] == f[0]):
                    r.n["distinct_nontrivial"] += 1
                if g != want:
                    r.violation(
                        f"TZ={tz}, {kind}: upstream {say(u)}, stored {say(d)}, fresh_time {say(f)}: the stored value was treated as "
                        f"{'out of date' if g else 'up to date'} (instants say {'out of date' if want else 'up to date'})",
                        key=f"decision {name} {'naive' if 'naive' in (u[1], d[1], f[1]) else 'aware'}",
                        one=(tz, zone, kind, [[x[0], x[1]] for x in (u, d, f)]))
            r.n["runs"] += 1
    r.sample(f"{tz} {name} at {at}: {len(vals)} values x {len(vals)} x {len(fresh)} fresh times, kinds {kinds}")


def chain(r, tz, zone, i, tier):
    """source -> stored a -> stored b, and two sources -> stored: three datetimes in every combination of instants and forms."""
    import uberjob

    deep = tier == "thorough"
    name, at, width = transitions(zone)[i]
    us = instants(at, width, False)
    us = us[1::2] if deep else us[1:8:3]
    vals = stamped(r, zone, us, ("naive", "utc", "zone", "other") if deep else ("naive", "zone", "+14"))
    M = stores()
    p = uberjob.Plan()
    g = uberjob.Registry()
    cells = []
    src = [g.source(p, M(v[2])) for v in vals]
    for (x, a), (y, b) in itertools.product(enumerate(vals), repeat=2):
        m1, m2 = M(b[2]), None
        n1 = p.call(ident, src[x])
        g.add(n1, m1)
        both = p.call(ident, src[x], [src[y]])
        for c in vals:
            m2, m3 = M(c[2]), M(c[2])
            g.add(p.call(ident, n1), m2)
            n3 = p.call(ident, both)
            g.add(n3, m3)
            cells.append((a, b, c, m1, m2, m3))
    for f in [(None, "none", None)] + vals:
        for *_, m1, m2, m3 in cells:
            m1.hit = m2.hit = m3.hit = 0
        try:
            uberjob.run(p, registry=g, fresh_time=f[2], max_workers=1, progress=None)
        except Exception as e:
            r.violation(f"TZ={tz}: the run failed: {e!r} {e.__cause__!r}", key=f"run fails {type(e.__cause__ or e).__name__}",
                        one=(tz, zone, "direct", [[x[0], x[1]] for x in (vals[0], vals[0], f)]))
            return
        F = f[0] if f[0] is not None else float("-inf")
        r.n["runs"] += 1
        for a, b, c, m1, m2, m3 in cells:
            w1 = max(a[0], F) > b[0]
            w2 = w1 or max(b[0], F) > c[0]
            w3 = max(a[0], b[0], F) > c[0]
            r.n["evaluations"] += 3
            r.n["distinct_nontrivial"] += 3 if len({a[1], b[1], c[1], f[1]}) > 1 else 0
            for lab, m, w in (("first", m1, w1), ("second", m2, w2), ("two sources", m3, w3)):
                if (m.hit > 0) != w:
                    r.violation(f"TZ={tz}, chain, {lab}: {say(a)}, {say(b)}, {say(c)}, fresh_time {say(f)}: treated as "
                                f"{'out of date' if m.hit else 'up to date'}, instants say otherwise", key=f"chain {lab} {name}",
                                task_=("chain", tz, zone, i, tier))
    r.sample(f"{tz} {name}: chains over {len(vals)} values")


def files(r, tz, zone, tier):
    """The bundled file stores, with their files' times set, against each other, ModifiedTimeSource and fresh_time."""
    import datetime as dt

    import uberjob
    from checks.filefix import scratch
    from uberjob import stores as S

    mk = {
        "pickle": S.PickleFileStore, "json": S.JsonFileStore, "text": S.TextFileStore, "binary": S.BinaryFileStore, "touch": S.TouchFileStore,
    }
    val = {"pickle": 1, "json": 1, "text": "x", "binary": b"x", "touch": None}
    with scratch() as d:
        n = 0
        for name, at, width in transitions(zone):
            us = instants(at, width, tier == "thorough")
            if tier != "thorough":
                us = us[1::2]
            us = sorted({*us, (at * 4 + 1) * US // 4, (at * 4 + 3) * US // 4})
            vals = {(u, rep): v for u, rep, v in stamped(r, zone, us, list(reps(zone)))}
            # get_modified_time itself denotes the file's instant
            paths = {}
            for kind in mk:
                for u in us:
                    n += 1
                    paths[kind, u] = os.path.join(d, f"f{n}")
            written = []

            def put(path, kind, u):
                with open(path, "wb"):
                    pass
                mk[kind](path).write(val[kind])
                os.utime(path, ns=(u * 1000, u * 1000))

            for (kind, u), path in paths.items():
                put(path, kind, u)
                for st in (mk[kind](path), S.PathSource(path)):
                    t = st.get_modified_time()
                    r.n["evaluations"] += 1
                    got = (t.astimezone(dt.timezone.utc) - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)) // dt.timedelta(microseconds=1)
                    # the platform's float time of the file may be off by a microsecond
                    if abs(got - u) > 1 and (u, "naive") in vals:
                        r.violation(f"TZ={tz}: {type(st).__name__}.get_modified_time() is {t!r} for a file modified at {u / US} (off by {(got - u) / US} s)",
                                    key=f"file time {type(st).__name__} {name}")
            # decisions: file source / ModifiedTimeSource -> file store, with every fresh time
            freshes = [((None, "none"), None)] + [(k, v) for k, v in vals.items() if k[1] in ("naive", "utc", "zone")]
            kinds = list(mk)
            for m, (fk, fv) in enumerate(freshes):
                p = uberjob.Plan()
                g = uberjob.Registry()
                cells = []
                for x, (a, b) in enumerate(itertools.product(us, us)):
                    if abs(a - b) == 1 or (fk[0] is not None and abs(fk[0] - b) == 1):
                        continue  # below the resolution of float file times
                    kind = kinds[(x + m) % len(kinds)]
                    up = (x // len(kinds) + m) % 3
                    if up == 0:
                        s = g.source(p, S.PathSource(paths[kind, a]))
                    elif up == 1:
                        av = vals.get((a, ("naive", "utc", "zone", "other")[m % 4]))
                        if av is None:
                            continue
                        s = g.source(p, S.ModifiedTimeSource(av))
                    else:
                        s = g.source(p, S.LiteralSource(0, av) if (av := vals.get((a, ("utc", "naive")[m % 2]))) is not None else S.PathSource(paths[kind, a]))

                    path = os.path.join(d, f"t{x}")
                    put(path, kind, b)
                    st = mk[kind](path)
                    c = p.call((lambda v: (lambda *_: v))(val[kind]), s)
                    g.add(c, st)
                    cells.append((a, b, kind, path, up))
                uberjob.run(p, registry=g, fresh_time=fv, max_workers=4, progress=None)
                r.n["runs"] += 1
                for a, b, kind, path, up in cells:
                    got = os.stat(path).st_mtime_ns != b * 1000
                    want = max(a, fk[0] if fk[0] is not None else a) > b
                    r.n["evaluations"] += 1
                    r.n["distinct_nontrivial"] += 1
                    if got != want:
                        r.violation(
                            f"TZ={tz}: {kind} file modified at {b / US}, upstream ({('PathSource', 'ModifiedTimeSource', 'LiteralSource')[up]}) at {a / US}, "
                            f"fresh_time {fk[0] and fk[0] / US} [{fk[1]}]: {'rewritten' if got else 'kept'}, the instants say otherwise",
                            key=f"file decision {name} {fk[1]}")
    r.sample(f"{tz}: file stores around {len(transitions(zone))} instants")


def sentinel(r, tz, zone, tier):
    """datetime.min and datetime.max (in every form) stay on their side of ordinary instants and do not break the run."""
    import datetime as dt

    lo, hi = float("-inf"), float("inf")
    tzs = [None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=14)), dt.timezone(dt.timedelta(hours=-12))]
    import zoneinfo

    tzs.append(zoneinfo.ZoneInfo(zone))
    ext = [(lo, f"min {z}", dt.datetime.min.replace(tzinfo=z)) for z in tzs] + [(hi, f"max {z}", dt.datetime.max.replace(tzinfo=z)) for z in tzs]
    mid = stamped(r, zone, [0, 1_400_000_000 * US, -100_000_000 * US - 1, 4_000_000_000 * US], ("naive", "utc", "zone"))
    for ups, downs, freshes in ((ext + mid, mid, [(None, "none", None)] + ext + mid), (mid, ext + mid, [(None, "none", None)] + mid)):
        pr = Pair("direct", ups, downs)
        for f in freshes:
            try:
                got = pr.run(f[2])
            except Exception as e:
                r.violation(f"TZ={tz}: the run failed with a datetime.min or datetime.max among the times: {e!r} {e.__cause__!r}",
                            key=f"sentinel run fails {type(e.__cause__ or e).__name__}", task_=("sentinel", tz, zone, tier))
                return
            r.n["runs"] += 1
            for (a, b, _), g in zip(pr.cells, got):
                u, d = ups[a], downs[b]
                want = max(u[0], f[0] if f[0] is not None else u[0]) > d[0]
                r.n["evaluations"] += 1
                r.n["distinct_nontrivial"] += 1
                if g != want:
                    r.violation(f"TZ={tz}: upstream {say(u)}, stored {say(d)}, fresh_time {say(f)}: treated as {'out of date' if g else 'up to date'}",
                                key="sentinel decision", task_=("sentinel", tz, zone, tier))


def one(r, tz, zone, kind, three):
    us = {k: stamped(r, zone, [k[0]], [k[1]])[0] if k[0] is not None else (None, "none", None) for k in map(tuple, three)}
    u, d, f = (us[tuple(k)] for k in three)
    g = Pair(kind, [u], [d]).run(f[2])[0]
    want = max(u[0], f[0] if f[0] is not None else u[0]) > d[0]
    if g != want:
        r.violation(f"TZ={tz}, {kind}: upstream {say(u)}, stored {say(d)}, fresh_time {say(f)}: treated as {'out of date' if g else 'up to date'}")


def replay(r, v):
    d = v["data"]
    if "one" in d:
        r.absorb(run_task(("one", *d["one"])))
    else:
        t = d.get("task_") or v["task"]
        r.absorb(run_task(tuple(tuple(x) if isinstance(x, list) else x for x in t)))


def coverage(t, tier):
    return {
        "evaluations": t.n["evaluations"], "distinct_nontrivial": t.n["distinct_nontrivial"],
        "rule": "every combination of instants (around each offset change of the zone, to the microsecond, and ordinary winter and summer ones) and "
                "representations (naive local with fold, UTC, the process zone, other zones, fixed offsets, a tzinfo without an offset) for the "
                "upstream time, the stored time and fresh_time, in every listed process time zone; the values rewritten by a real run are compared "
                "with the decision on integer microseconds",
        "zones": [z[0] for z in (ZONES if tier == "thorough" else ZONES[:QUICK_ZONES])],
    }


if __name__ == "__main__":
    import ctypes
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the pool's worker
    task = pickle.load(sys.stdin.buffer)
    out = os.dup(1)
    os.dup2(2, 1)
    boot.boot(sched=False)
    res = child(task)
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(res))
    os._exit(0)
