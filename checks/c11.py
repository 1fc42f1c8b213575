"""C11: file-backed stores replace their file atomically at every failure point.

An LD_PRELOAD shim (shim/faultfs.c) numbers every libc operation on files of the scratch directory.  For every store, value
and prior state, every operation k of the write is made to fail (several errors, also after taking effect, also partly) or to
kill the process (before it, half-way through it, just after it); pairs of faults are enumerated too.
"""
import ctypes
import errno
import os
import shutil
import signal
import subprocess
import sys
import tempfile

if os.environ.get("MC_FFS_ACTIVE") != "1":
    # Build the shim and start again with it preloaded.
    _d = tempfile.mkdtemp(prefix="verif-ffs-")
    _so = os.path.join(_d, "faultfs.so")
    _src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim", "faultfs.c")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", _so, _src, "-ldl"], check=True)
    os.execve(sys.executable, [sys.executable, "-B", *sys.argv],
              {**os.environ, "LD_PRELOAD": _so, "MC_FFS": _so, "MC_FFS_ACTIVE": "1"})

LIBC = ctypes.CDLL(None)
FFS = ctypes.CDLL(os.environ["MC_FFS"])
FFS.ffs_name.restype = ctypes.c_char_p
if os.environ.pop("LD_PRELOAD", None):
    os.unlink(os.environ["MC_FFS"])
    os.rmdir(os.path.dirname(os.environ["MC_FFS"]))

from checks.filefix import as_path, remove, same, scratch  # noqa: E402
from mc.core import R  # noqa: E402

LEVEL = "fault_enumeration"
SCHED = False
ASSUMPTIONS = [
    "faults are those a process can observe through libc or suffer by dying; loss of OS buffers at power failure is outside the property",
    "rename(2) itself is atomic, as the operating system guarantees",
]
ERR, DIE, TORN_DIE, SHORT, TORN_ERR, DONE_ERR, DONE_DIE, STOP = 1, 2, 3, 4, 5, 6, 7, 8
KILL = (DIE, TORN_DIE, DONE_DIE)
MN = {ERR: "fails", DIE: "killed before", TORN_DIE: "killed half-way through", SHORT: "short", TORN_ERR: "partly done, then fails",
      DONE_ERR: "fails after taking effect", DONE_DIE: "killed just after"}
ERRNOS = {
    "open-w": (errno.EACCES, errno.EMFILE, errno.ENOSPC), "open-r": (errno.EACCES,), "write": (errno.ENOSPC, errno.EIO),
    "close": (errno.EIO, errno.ENOSPC), "rename": (errno.EACCES, errno.EXDEV, errno.EIO, errno.EISDIR), "fsync": (errno.EIO,),
    "link": (errno.EPERM, errno.EXDEV), "unlink": (errno.EACCES, errno.EIO), "truncate": (errno.EIO,), "utime": (errno.EPERM,),
}
LEFTOVER = b"LEFTOVER" * 40_000
OLD_NS = 1_000_000_000_000_000_000


class Fatal(BaseException):
    pass


class BadPickle:
    def __init__(self, e):
        self.e = e

    def __reduce__(self):
        raise self.e


class Unjson:
    pass


def big(n):
    return [{"k": i, "s": "x" * 40} for i in range(n)]


# store name -> (old value, [new values])
def world():
    import uberjob.stores as S
    from uberjob.stores import staged_write, staged_write_path

    class Staged:
        """The staged_write helper used directly."""

        def __init__(self, path, mode, kw, chunks=3, flush=False):
            self.path, self.mode, self.kw, self.chunks, self.flush = path, mode, kw, chunks, flush

        def write(self, v):
            with staged_write(self.path, self.mode, **self.kw) as f:
                n = max(1, len(v) // self.chunks)
                for i in range(0, len(v), n):
                    f.write(v[i:i + n])
                    if self.flush:
                        f.flush()

        def read(self):
            with open(self.path, self.mode.replace("w", "r"), **self.kw) as f:
                return f.read()

        get_modified_time = None

    class StagedPath(Staged):
        def write(self, v):
            with staged_write_path(self.path) as p:
                if isinstance(self.path, os.PathLike) and not isinstance(p, os.PathLike):
                    raise AssertionError(f"staged_write_path yields {type(p)} for a {type(self.path)}")
                with open(p, "wb") as f:
                    f.write(v)
                if self.flush:
                    fd = os.open(str(p), os.O_WRONLY | os.O_APPEND)
                    os.write(fd, b"")
                    os.close(fd)

    text = ["", "new", "n" * 9000 + "\n", "é\r\n" * 9000]
    binv = [b"", b"new", b"n" * 9000, b"n" * 200_000]
    return {
        "json": (S.JsonFileStore, ["old"] * 30, [None, {"a": [1]}, big(200), "x" * 20_000]),
        "jsonenc": (lambda p: S.JsonFileStore(p, encoding="utf-16"), ["old"] * 30, [{"a": 1}, big(100)]),
        "pickle": (S.PickleFileStore, ["old"] * 30, [None, {"a": (1,)}, big(2000), b"z" * 100_000]),
        "text": (S.TextFileStore, "old" * 50, text),
        "textenc": (lambda p: S.TextFileStore(p, encoding="utf-16"), "old" * 50, text),
        "binary": (S.BinaryFileStore, b"old" * 50, binv),
        "touch": (S.TouchFileStore, None, [None]),
        "staged-w": (lambda p: Staged(p, "w", {"encoding": "utf-8", "newline": ""}), "old", text),
        "staged-wb": (lambda p: Staged(p, "wb", {}, flush=True), b"old", binv),
        "staged-unbuf": (lambda p: Staged(p, "wb", {"buffering": 0}, chunks=2), b"old", binv),
        "staged-path": (lambda p: StagedPath(p, "wb", {}), b"old", binv),
        "staged-path2": (lambda p: StagedPath(p, "wb", {}, flush=True), b"old", binv),
    }


def bad_values(name):
    """(label, make value, exception class expected) for writes that fail by themselves, early and late."""
    out = []
    if name.startswith("json"):
        out += [("late-unserialisable", lambda: [*big(300), Unjson()]), ("early-unserialisable", lambda: Unjson()),
                ("mid-key", lambda: [*big(300), {(1,): 2}]), ("circular", _circular),
                ("unserialisable-small", lambda: [1, Unjson()])]
    if name == "jsonenc":
        out = out[:2]
    if name == "pickle":
        out += [(f"late-{type(e).__name__}", lambda e=e: [*big(3000), BadPickle(e)]) for e in
                (ValueError("v"), Fatal(), KeyboardInterrupt(), SystemExit(), MemoryError(), GeneratorExit(), RecursionError())]
        out += [("early-ValueError", lambda: BadPickle(ValueError())), ("lambda", lambda: [big(3000), lambda: 0])]
    if name == "text":
        out += [("not-str", lambda: 5), ("bytes", lambda: b"x"), ("surrogate", lambda: "x" * 20_000 + "\ud800"),
                ("surrogate-small", lambda: "\udc80")]
    if name == "binary":
        out += [("not-bytes", lambda: 5), ("str", lambda: "x")]
    if name == "touch":
        out += [("not-None", lambda: 0)]
    if name == "staged-w":
        out += [("late-surrogate", lambda: "x" * 20_000 + "\ud800" + "x" * 20_000)]
    return out


def _circular():
    x = big(300)
    x.append(x)
    return x


def snapshot(d, path):
    try:
        with open(path, "rb") as f:
            data = f.read()
        mt = os.stat(path).st_mtime_ns
    except FileNotFoundError:
        data = mt = None
    return data, mt, sorted(os.listdir(d))


class Scene:
    """One (store, path kind, previous state, leftover staging file) in a scratch directory."""

    def __init__(self, d, name, kind, prev, left):
        self.d, self.name, self.prev, self.left, self.kind = d, name, prev, left, kind
        self.mk, self.oldv, self.news = world()[name]
        self.path = os.path.join(d, "target.x")
        self.staging = None
        self.arg = as_path(self.path, kind)
        self.reads = []  # what fault-free writes read back as

    def store(self):
        return self.mk(self.arg)

    def raw(self, v):
        """The bytes of a fault-free write into an empty directory."""
        self.clear()
        self.store().write(v)
        with open(self.path, "rb") as f:
            b = f.read()
        self.reads.append(self.store().read())
        return b

    def clear(self):
        for n in os.listdir(self.d):
            remove(os.path.join(self.d, n))

    def learn_staging(self, v):
        """Where a killed writer leaves its staging file (taken from the code's behaviour, not assumed)."""
        self.clear()
        pid = os.fork()
        if pid == 0:
            try:
                FFS.ffs_arm(self.d.encode())
                FFS.ffs_fault(2, DIE, 0)
                self.store().write(v)
            except BaseException:
                pass
            os._exit(1)
        os.waitpid(pid, 0)
        names = [n for n in os.listdir(self.d) if n != "target.x"]
        self.clear()
        return names

    def prepare(self, left_names):
        self.clear()
        if self.prev:
            self.store().write(self.oldv)
            os.utime(self.path, ns=(OLD_NS, OLD_NS))
        if self.left:
            for n in left_names:
                with open(os.path.join(self.d, n), "wb") as f:
                    f.write(LEFTOVER)


def ops_of(sc, v, left_names, faults=()):
    """Names of the operations of a write (with earlier faults applied)."""
    sc.prepare(left_names)
    FFS.ffs_arm(sc.d.encode())
    for f in faults:
        FFS.ffs_fault(*f)
    try:
        sc.store().write(v)
    except BaseException as e:
        e.__traceback__ = None
        del e
    n = FFS.ffs_count()
    FFS.ffs_disarm()
    return [FFS.ffs_name(i).decode() for i in range(n)]


def fault_menu(op, quick):
    out = [(ERR, e) for e in (ERRNOS.get(op, (errno.EIO,)) if not quick else ERRNOS.get(op, (errno.EIO,))[:2])]
    out += [(DIE, 0), (DONE_DIE, 0)]
    if op == "write":
        out += [(TORN_DIE, 0), (TORN_ERR, errno.EIO), (SHORT, 0)]
    if op == "close":
        out += []
    if op in ("rename", "link"):
        out += [(DONE_ERR, errno.EIO)]
    return out


def untouched(sc, n, left_names):
    """n is the leftover of an earlier killed writer that this write had not yet touched when it failed."""
    if not sc.left or n not in left_names:
        return False
    with open(os.path.join(sc.d, n), "rb") as f:
        return f.read() == LEFTOVER


def judge(r, sc, before, oldb, newb, v, raised, died, faults, left_names, where, cleanup_faulted):
    """The state after one faulted write."""
    data, mt, names = snapshot(sc.d, sc.path)
    ctx = f"{sc.name} {sc.kind} prev={sc.prev} leftover={sc.left} new={str(v)[:30]!r}: {where}"
    key = f"{sc.name} {where.split(' at ')[0]}"

    def bad(msg):
        r.violation(f"{ctx}: {msg}", key=key + ": " + msg[:60], case=repr((sc.name, sc.kind, sc.prev, sc.left)), faults=repr(faults))

    if data not in (oldb, newb):
        return bad(f"target holds neither the previous nor the new value ({None if data is None else len(data)} bytes, "
                   f"previous {None if oldb is None else len(oldb)}, new {None if newb is None else len(newb)})")
    if data is None and newb is None:
        return None
    if mt != before[1] and data != newb:
        return bad("modified time changed although the new value is not in place")
    if not died and raised is None:
        if data != newb:
            return bad("write returned normally but the new value is not in place")
        extra = [n for n in names if n != "target.x"]
        if extra:
            return bad(f"write returned normally but left {extra}")
    if raised is not None and not cleanup_faulted:
        extra = [n for n in names if n != "target.x" and not untouched(sc, n, left_names)]
        if extra:
            return bad(f"write raised {type(raised).__name__} but left {extra}")
    if data is not None:
        s = sc.store()
        got = s.read()
        if not any(same(got, x) for x in sc.reads):
            return bad("read returns neither the previous nor the new value")
        if s.get_modified_time is not None and s.get_modified_time() is None:
            return bad("get_modified_time is None although a value is stored")
    else:
        s = sc.store()
        if s.get_modified_time is not None and s.get_modified_time() is not None:
            return bad("get_modified_time is not None although nothing is stored")
    return None


def after_death(r, sc, where):
    """A staging file left by a killed process does not disturb later writes or reads."""
    names = [n for n in os.listdir(sc.d) if n != "target.x"]
    v = sc.news[0]
    data0 = snapshot(sc.d, sc.path)[0]
    if data0 is not None:
        sc.store().read()
        if snapshot(sc.d, sc.path)[0] != data0:
            r.violation(f"{sc.name}: {where}: reading after the crash changed the file")
    sc.store().write(v)
    got = sc.store().read()
    rest = [n for n in os.listdir(sc.d) if n != "target.x"]
    with scratch() as d2:
        ref = sc.mk(as_path(os.path.join(d2, "target.x"), sc.kind))
        ref.write(v)
        want = ref.read()
    if not same(got, want):
        r.violation(f"{sc.name} {sc.kind}: {where}: with {names} left behind, a later write/read returns {str(got)[:40]!r}",
                    key=f"{sc.name} leftover disturbs")
    r.n["recoveries"] += 1
    return rest


def run_fault(r, sc, v, oldb, newb, faults, ops, left_names):
    sc.prepare(left_names)
    before = snapshot(sc.d, sc.path)
    kill = any(m in KILL for _, m, _ in faults)
    where = ", then ".join(f"{MN[m]} at {ops[k-1] if k <= len(ops) else 'end'}#{k}" + (f" {errno.errorcode[e]}" if e else "")
                           for k, m, e in faults)
    raised = None
    died = False
    cleanup = any((ops[k - 1] if k <= len(ops) else "") in ("unlink", "rmdir") and m in (ERR, DONE_ERR) for k, m, _ in faults)
    if kill:
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                FFS.ffs_arm(sc.d.encode())
                for f in faults:
                    FFS.ffs_fault(*f)
                sc.store().write(v)
                code = 0
            except BaseException:
                code = 4
            os._exit(code)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        died = st == 137
        if st == 4:
            raised = Exception("raised in the child")
        r.n["kills"] += died
    else:
        FFS.ffs_arm(sc.d.encode())
        for f in faults:
            FFS.ffs_fault(*f)
        try:
            sc.store().write(v)
        except BaseException as e:
            raised = e
            e.__traceback__ = None
            e.__context__ = None
        FFS.ffs_disarm()
        r.n["errors_injected"] += 1
    r.n["evaluations"] += 1
    r.seen((sc.name, sc.kind, sc.prev, sc.left, str(v)[:20], len(str(v)), faults))
    judge(r, sc, before, oldb, newb, v, raised, died, faults, left_names, where, cleanup)
    if len(r.samples) < 2 and faults[0][0] == 2:
        r.sample({"store": sc.name, "value": str(v)[:40], "fault": where, "raised": repr(raised), "died": died,
                  "directory": sorted(os.listdir(sc.d))})
    if died:
        after_death(r, sc, where)


def run_faults(r, sc, quick, pairs):
    left_names = sc.learn_staging(sc.news[-1])
    r.n["cases"] += 1
    for v in sc.news:
        sc.reads = []
        newb = sc.raw(v)
        oldb = sc.raw(sc.oldv) if sc.prev else None
        ops = ops_of(sc, v, left_names)
        r.max("operations_in_one_write", len(ops))
        ks = list(range(1, len(ops) + 1))
        if quick and len(ks) > 14:  # long runs of identical buffered writes: the ends and the middle
            ks = ks[:5] + ks[len(ks) // 2 - 1: len(ks) // 2 + 1] + ks[-5:]
        singles = []
        for k in ks:
            for m, e in fault_menu(ops[k - 1], quick):
                if m == SHORT and sc.name == "staged-unbuf":
                    continue  # a raw file object reports short writes to its user, who is the harness here
                run_fault(r, sc, v, oldb, newb, ((k, m, e),), ops, left_names)
                if m in (ERR, SHORT, TORN_ERR, DONE_ERR):
                    singles.append((k, m, e))
        if not pairs:
            continue
        done = set()
        for f in singles:
            if (f[0], f[1]) in done:
                continue
            done.add((f[0], f[1]))
            ops2 = ops_of(sc, v, left_names, (f,))
            for k2 in range(f[0] + 1, min(len(ops2), f[0] + 5) + 1):
                for m2, e2 in fault_menu(ops2[k2 - 1], True):
                    if m2 == SHORT and sc.name == "staged-unbuf":
                        continue
                    run_fault(r, sc, v, oldb, newb, (f, (k2, m2, e2)), ops2, left_names)


def run_bad(r, sc):
    """Writes that fail by themselves (serialisation errors early and late), also with a following I/O fault."""
    left_names = sc.learn_staging(sc.news[-1])
    for label, mk in bad_values(sc.name):
        sc.reads = []
        oldb = sc.raw(sc.oldv) if sc.prev else None
        sc.prepare(left_names)
        before = snapshot(sc.d, sc.path)
        raised = None
        FFS.ffs_arm(sc.d.encode())
        try:
            sc.store().write(mk())
        except BaseException as e:
            raised = e
            e.__traceback__ = None
            e.__context__ = None
        n = FFS.ffs_count()
        ops = [FFS.ffs_name(i).decode() for i in range(n)]
        FFS.ffs_disarm()
        r.n["evaluations"] += 1
        r.seen((sc.name, sc.prev, sc.left, label))
        where = f"value {label}"
        if raised is None:
            r.violation(f"{sc.name}: {where}: the write of an unserialisable value returned normally", key=f"{sc.name} {label} silent")
            continue
        judge(r, sc, before, oldb, oldb, sc.oldv, raised, False, (), left_names, where, False)
        for k in range(1, n + 1):
            for m, e in fault_menu(ops[k - 1], True):
                sc.prepare(left_names)
                before = snapshot(sc.d, sc.path)
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        FFS.ffs_arm(sc.d.encode())
                        FFS.ffs_fault(k, m, e)
                        sc.store().write(mk())
                        code = 0
                    except BaseException:
                        code = 4
                    os._exit(code)
                st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                died = st == 137
                r.n["evaluations"] += 1
                w2 = f"value {label} with {MN[m]} at {ops[k-1]}#{k}"
                judge(r, sc, before, oldb, oldb, sc.oldv, Exception("raised in the child") if st == 4 else None, died, (), left_names,
                      w2, ops[k - 1] == "unlink" and m == ERR)
                if died:
                    after_death(r, sc, w2)


def run_async(r, sc):
    """KeyboardInterrupt at every point inside the stores' code at which CPython delivers signals."""
    import gc

    from mc import boot
    from mc.pyint import points

    left_names = sc.learn_staging(sc.news[-1])
    for v in sc.news[:3]:
        sc.reads = []
        newb = sc.raw(v)
        oldb = sc.raw(sc.oldv) if sc.prev else None
        k = 0
        while True:
            k += 1
            sc.prepare(left_names)
            before = snapshot(sc.d, sc.path)
            raised = None
            st = sc.store()
            with points(os.path.join(boot.PKG, "stores"), k, KeyboardInterrupt) as p:
                try:
                    st.write(v)
                except BaseException as e:
                    raised = e
                    e.__traceback__ = None
                    e.__context__ = None
            if not p.fired:
                break
            gc.collect()
            r.n["evaluations"] += 1
            r.n["interrupts"] += 1
            r.seen((sc.name, sc.prev, sc.left, str(v)[:20], "KI", k))
            judge(r, sc, before, oldb, newb, v, raised, False, (), left_names, f"KeyboardInterrupt at {p.where}", False)


# Names of files that lie beside each other; each belongs to a store of its own.
NEIGHBOURS = ("x", "x.json", "x.txt", "x.tar.gz", "x.tar.bz2", "x.", ".x", ".x.json", "X.json", "x y.json", "y", "xx", "x.json.bak",
              "x.json~", "1x.json", "sub/x.json", "sub/x.txt", "sub.json/x", "é.txt", "x" * 200 + ".a", "x" * 200 + ".b", "%s.json", "x.tmp", "x.json.tmp",
              "tmpx.json")


def start_write(store, v, d, k):
    """A process that writes v and stops before its k-th file operation."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)  # do not outlive the worker process while stopped
            FFS.ffs_arm(d.encode())
            FFS.ffs_fault(k, STOP, 0)
            store.write(v)
            code = 0
        except BaseException:
            code = 4
        os._exit(code)
    _, st = os.waitpid(pid, os.WUNTRACED)
    return pid, os.WIFSTOPPED(st), st


def finish(pid, stopped, st):
    if stopped:
        os.kill(pid, signal.SIGCONT)
        _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def run_neighbours(r, names, pk, i, d, quick):
    """Two stores of neighbouring files written at once: A runs up to its k-th operation, B up to its m-th (or to its end), then A
    and then B go on.  Also A dying there instead of going on.  Each target ends up with its own value."""
    sa, sb = names
    W = world()
    fa = NEIGHBOURS[i]
    for fb in NEIGHBOURS:
        if fb == fa or quick and fb < fa and "x." not in fa:
            continue
        shutil.rmtree(d)
        for x in (d, os.path.join(d, "sub"), os.path.join(d, "sub.json")):
            os.mkdir(x)
        pa, pb = os.path.join(d, fa), os.path.join(d, fb)
        mk = lambda s, p: W[s][0](as_path(p, pk))  # noqa: E731
        va, vb = W[sa][2][1 % len(W[sa][2])], W[sb][2][-1]

        def names_():
            return sorted(os.path.relpath(os.path.join(x, f), d) for x, _, fs in os.walk(d) for f in fs)

        k = 0
        while True:
            k += 1
            m = 0
            while True:
                m += 1  # m = 1: B has not begun; B's end is reached once it is no longer stopped
                for die in (False, True):
                    for s, p in ((sa, pa), (sb, pb)):
                        mk(s, p).write(W[s][1])
                    a = start_write(mk(sa, pa), va, d, k)
                    if not a[1]:
                        finish(*a)
                        break
                    b = start_write(mk(sb, pb), vb, d, m)
                    where = f"{sa} {fa!r} stopped before operation {k}, {sb} {fb!r} " + (f"before its operation {m}" if b[1] else "written")
                    if die:
                        os.kill(a[0], signal.SIGKILL)
                        os.waitpid(a[0], 0)
                        ca = 0
                        where += f", {fa!r} killed"
                    else:
                        ca = finish(*a)
                    cb = finish(*b)
                    r.n["evaluations"] += 1
                    r.n["interleavings"] += 1
                    r.seen((sa, sb, pk, fa, fb, k, m, die))
                    if ca or cb:
                        r.violation(f"{where}: a write failed", key=f"neighbours write fails {fa} {fb}")
                        return
                    ga, gb = mk(sa, pa).read(), mk(sb, pb).read()
                    if not (same(ga, va) or die and same(ga, W[sa][1])) or not same(gb, vb):
                        r.violation(f"{where}: {fa!r} reads {str(ga)[:40]!r} and {fb!r} reads {str(gb)[:40]!r}", key=f"neighbours mixed {fa} {fb}")
                        return
                    rest = [n for n in names_() if n not in (fa, fb)]
                    if rest and not die:
                        r.violation(f"{where}: left {rest}", key=f"neighbours leave {fa} {fb}")
                        return
                    for n in rest:
                        os.unlink(os.path.join(d, n))
                if not a[1] or not b[1]:
                    break
            if not a[1]:
                break
        r.n["cases"] += 1


def run_task(task):
    """Whatever a faulted write raises is dealt with where it is made: an exception that gets here comes from a write, read or
    get_modified_time without any fault."""
    r = R()
    try:
        go_task(r, task)
    except Exception as e:
        import traceback

        FFS.ffs_disarm()
        pkg = os.path.join(os.path.dirname(sys.modules["uberjob"].__file__), "")
        fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(pkg)]
        if not fr:
            raise
        mine = [f for f in traceback.extract_tb(e.__traceback__) if f.filename == __file__]
        r.violation(f"{task[0]} {task[1]} {task[2]} previous={task[3]} leftover={task[4]}: {fr[0].name} without any fault (in {mine[-1].name}) "
                    f"raised {e!r}"[:600], key=f"fault-free {fr[0].name} raised {type(e).__name__} {task[1]}")
    return r


def go_task(r, task):
    kind, name, pk, prev, left, quick = task
    if kind == "neigh":
        with scratch() as d:
            run_neighbours(r, name, pk, prev, d, quick)
        return
    with scratch() as d:
        sc = Scene(d, name, pk, prev, left)
        if kind == "fault":
            run_faults(r, sc, quick, False)
        elif kind == "pairs":
            run_faults(r, sc, quick, True)
        elif kind == "bad":
            run_bad(r, sc)
        elif kind == "async":
            run_async(r, sc)


def coverage(total, tier):
    return {
        "evaluations": total.n.get("evaluations", 0), "distinct_nontrivial": len(total.distinct),
        "rule": "one case per (store, path type, previous state, leftover staging file, value, fault or pair of faults); non-trivial: "
                "the fault hit an operation of that very write",
    }


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    for name in world():
        for pk in ("str", "Path"):
            for prev in (True, False):
                for left in (False, True):
                    T.append(("pairs" if not left and (pk == "str" or not quick) else "fault", name, pk, prev, left, quick))
                    if bad_values(name):
                        T.append(("bad", name, pk, prev, left, quick))
                    T.append(("async", name, pk, prev, left, quick))
    kinds = [("text", "text")] if quick else [("text", "text"), ("json", "pickle"), ("staged-wb", "touch"), ("pickle", "staged-path")]
    for i in range(len(NEIGHBOURS)):
        for j, pk in enumerate(("Path", "str")):
            for ks in kinds if not quick or j == 0 else [("pickle", "staged-path")][:i % 2 == seed % 2]:
                T.append(("neigh", ks, pk, i, None, quick))
    return T
