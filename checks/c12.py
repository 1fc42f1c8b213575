"""C12: stores return what was written and report modified times faithfully."""
import itertools
import os
import pickle
import re
import time

from checks.filefix import as_path, remove, same, scratch
from mc import harness as H
from mc import pickles, sched
from mc.core import R

LEVEL = "exploration"
ASSUMPTIONS = [
    "a code point belongs to a text domain when its encoding maps it to bytes and back to itself",
    "modified times are compared as instants (naive ones read as local time, including fold)",
]


class Mounted:
    """Made lazily: a MountedStore keeping the remote bytes in memory, with its own modified time."""

    cls = None

    @classmethod
    def make(cls, create):
        if cls.cls is None:
            import datetime as dt

            from uberjob.stores import MountedStore

            class MemMounted(MountedStore):
                def __init__(self, create_store):
                    super().__init__(create_store)
                    self.remote = None
                    self.t = None

                def copy_from_local(self, local_path):
                    with open(local_path, "rb") as f:
                        self.remote = f.read()
                    self.t = dt.datetime.now(dt.timezone.utc)

                def copy_to_local(self, local_path):
                    if self.remote is None:
                        raise FileNotFoundError("nothing mounted")
                    with open(local_path, "wb") as f:
                        f.write(self.remote)

                def get_modified_time(self):
                    return self.t

            cls.cls = MemMounted
        return cls.cls(create)


def stores():
    import uberjob.stores as S

    return {"json": S.JsonFileStore, "pickle": S.PickleFileStore, "text": S.TextFileStore, "binary": S.BinaryFileStore,
            "touch": S.TouchFileStore}


ENC = {"json": (None, "utf-8", "utf-16", "latin-1", "ascii", "utf-8-sig", "cp1252"),
       "text": (None, "utf-8", "utf-16", "utf-16-le", "utf-32", "utf-8-sig", "latin-1", "cp1252", "ascii", "utf-7", "shift_jis",
                "gb18030", "cp037", "iso2022_jp", "big5", "koi8-r")}


def creator(kind, enc):
    cls = stores()[kind]
    if kind in ENC and enc is not None:
        return lambda p: cls(p, encoding=enc)
    return cls


class Bad(Exception):
    pass


def trip(r, d, kind, enc, pk, via, values, name="f"):
    """Write each value and read it back (with a fresh store object), over the previous one."""
    create = creator(kind, enc)
    path = as_path(os.path.join(d, name), pk)
    m = Mounted.make(create) if via == "mounted" else Mounted.make(lambda p: Mounted2(create, p)) if via == "nested" else None
    for v in values:
        r.n["evaluations"] += 1
        try:
            if m is not None:
                m.write(v)
                got = m.read()
            else:
                create(path).write(v)
                s = create(path)
                got = s.read()
        except Exception as e:
            r.violation(f"{kind} store (encoding={enc}, {pk}, {via}): write/read of {short(v)} raised {e!r}"[:900],
                        key=f"{kind} {via} raises {type(e).__name__}", value=short(v), enc=enc)
            continue
        if not same(got, v) and not (kind == "pickle" and as_reference(got, v)):
            r.violation(f"{kind} store (encoding={enc}, {pk}, {via}): wrote {short(v)}, read {short(got)}{first_diff(v, got)}"[:900],
                        key=f"{kind} {via} {enc} roundtrip", value=short(v), enc=enc)
            if r.n["violations"] > 50:
                return
        r.seen((kind, enc, via, short(v), len(repr(v)) if len(values) < 20000 else 0))
    if values and len(r.samples) < 1:
        r.sample({"store": kind, "encoding": enc, "path": pk, "via": via, "value": short(values[-1])})


def as_reference(got, v):
    """Objects that are equal only to themselves: indistinguishable from what the pickle module itself makes of them."""
    ref = pickle.loads(pickle.dumps(v))
    return type(got) is type(v) and not same(ref, v) and re.sub("0x[0-9a-f]+", "", repr(got)) == re.sub("0x[0-9a-f]+", "", repr(ref))


class Mounted2:
    """A store over a path which is itself mounted (MountedStore over MountedStore)."""

    def __init__(self, create, path):
        self.create, self.path = create, path

    def write(self, v):
        m = Mounted.make(self.create)
        m.write(v)
        with open(self.path, "wb") as f:
            f.write(m.remote)

    def read(self):
        m = Mounted.make(self.create)
        with open(self.path, "rb") as f:
            m.remote = f.read()
        return m.read()


def short(v):
    s = ascii(v)
    return s if len(s) < 120 else s[:60] + f"...({len(s)})"


def first_diff(a, b):
    if isinstance(a, (str, bytes)) and type(a) is type(b):
        for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
            if x != y:
                return f" (first difference at {i}: {x!r} became {y!r})"
    return ""


# ------------------------------------------------------------------------------ domains
def domain_chars(enc):
    e = enc or "utf-8"
    out = []
    for c in range(0x110000):
        if 0xD800 <= c < 0xE000:
            continue
        ch = chr(c)
        try:
            if ch.encode(e).decode(e) == ch or e == "utf-8-sig" or e.startswith("utf"):
                out.append(ch)
        except UnicodeError:
            pass
    return out


def encodable(s, enc):
    e = enc or "utf-8"
    try:
        return s.encode(e).decode(e) == s or (e.startswith("utf") and s[:1] == "\ufeff")
    except UnicodeError:
        return False


SPECIAL = "\r\n\0\x1a\x0b\x0c\x1c\x85\u2028\u2029\ufeff\t \\\"é\U0001f600\x7f"


def text_values(part, enc):
    if part == "blocks":
        cs = domain_chars(enc)
        for n in (4096, 1000):
            for i in range(0, len(cs), n):
                yield "".join(cs[i:i + n])
    elif part == "singles":
        cs = domain_chars(enc)
        yield ""
        yield from cs[:2500]
        yield from cs[2500::997]
    elif part == "pairs":
        sp = [c for c in SPECIAL + "a" if encodable(c, enc)]
        for n in (1, 2, 3):
            yield from map("".join, itertools.product(sp if n < 3 else sp[:9] + ["a"], repeat=n))
        yield from map("".join, itertools.product([c for c in "\r\na\x85" if encodable(c, enc)], repeat=5))
    elif part == "chunks":
        for size in (1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 131071, 131072):
            for tail in ("\r\n", "\r", "\n\r", "\r\r\n", "\ufeff", "é", "\x1a", "\0"):
                if encodable(tail, enc):
                    yield "a" * size + tail
                    yield "a" * size + tail + "b"
                    yield tail + "a" * size + tail
        yield "\r\n" * 50_000
        yield "\r" * 9_000
        yield "line\n" * 300_000


class Thing:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o) is Thing and same(self.x, o.x)

    __hash__ = None


LEAVES = [None, True, False, 0, 1, -1, 2**70, 1.0, 1.5, -0.0, 1e308, 5e-324, "", "a", "\r\n", "é", "\u2028", "\U0001f600",
          "\0", "\"\\/"]


def json_values(part):
    keys = ["", "a", "\r", "é"]
    if part == "small":
        yield from LEAVES
        for a in LEAVES:
            yield [a]
            yield {"k": a}
            for k in keys:
                yield {k: [a]}
        yield []
        yield {}
        for a, b in itertools.product(LEAVES, repeat=2):
            yield [a, b]
            yield {"x": a, "": b}
    elif part == "trees":
        lv = [None, True, 1, 1.0, "", "\r\n"]
        d1 = lv + [[], {}] + [[a] for a in lv] + [{"k": a} for a in lv]
        for a, b in itertools.product(d1, repeat=2):
            yield [a, b]
            yield {"a": a, "b": [b]}
        for a in d1:
            yield {"b": {"a": [a, {"c": a}]}, "a": a}
    elif part == "big":
        for n in (1, 10, 100, 300):
            x = 0
            y = {}
            for _ in range(n):
                x, y = [x], {"k": y}
            yield x
            yield y
        yield list(range(200_000))
        yield {str(i): i for i in range(50_000)}
        yield "x" * 2_000_000
        yield [10**300, -(10**1000), 0.1 + 0.2, 1 / 3, 1e-310, 123456789.123456789]
        yield {k: i for i, k in enumerate(SPECIAL)}
        for i in range(0, 0x110000, 4096):
            yield "".join(chr(c) for c in range(i, i + 4096) if not 0xD800 <= c < 0xE000)
        yield {"z": 1, "a": 2, "m": {"y": 1, "b": 2}}


def pickle_values(part):
    import datetime as dt
    import decimal
    import fractions
    import pathlib

    if part == "small":
        yield from LEAVES
        base = [*LEAVES, b"", b"\0\r\n", (), (1,), set(), {1, 2}, frozenset({1}), bytearray(b"x"), 1j, ..., NotImplemented, range(3),
                slice(1, 2), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), decimal.Decimal("1.10"), fractions.Fraction(1, 3),
                pathlib.PurePosixPath("a/b"), Thing([1]), Thing(None), int, len, dict, ValueError, float("inf")]
        yield from base
        for a in base:
            yield [a, a]
            yield (a,)
            yield {"k": a, (1, 2): [a]}
            yield Thing(a)
        for a, b in itertools.product(base[::2], repeat=2):
            yield (a, [b], {"x": b})
    elif part == "kinds":
        vs = list(pickles.values())
        yield from vs
        for v in vs:
            yield [v]
            yield {"k": (v, v)}
    else:
        x = []
        x.append(x)
        yield x
        y = {}
        y["y"] = (y, [y])
        yield y
        sh = [1, 2]
        yield [sh, sh, {"a": sh}]
        yield list(range(300_000))
        yield b"\0" * 5_000_000
        yield "é" * 1_000_000
        z = None
        for _ in range(300):
            z = (z,)
        yield z


def binary_values(part):
    if part == "small":
        yield b""
        for i in range(256):
            yield bytes([i])
        for a in range(256):
            for b in (0, 10, 13, 26, 255):
                yield bytes([a, b])
        yield from map(bytes, itertools.product((0, 10, 13, 26, 0x80, 0xFF), repeat=4))
        yield bytes(range(256))
    else:
        for n in (8191, 8192, 8193, 65536, 131073, 10_000_000):
            yield b"\r\n" * n
            yield bytes(i % 251 for i in range(min(n, 200_000)))


def values(kind, part, enc):
    if kind == "text":
        return text_values(part, enc)
    return {"json": json_values, "pickle": pickle_values, "binary": binary_values}[kind](part)


# ------------------------------------------------------------------------------ operation sequences
VALS = {"json": ([1, "\r\n"], {"a": None}), "pickle": ((1, {2}), [None]), "text": ("a\r\nb", ""), "binary": (b"\r\n", b""),
        "touch": (None, None)}
BADV = {"json": object(), "pickle": lambda: 0, "text": "\ud800", "binary": 5, "touch": 1}
INSTANTS = (0, 1, 0.5, -1.5, 86_400, 951_782_400.25, 1_000_000_000, 1_577_836_800, 4_102_444_800, 1_604_210_400, 1_604_214_000.999)


def instant(t):
    return None if t is None else t.timestamp()


def sequences(r, d, kind, pk, via, depth):
    """Every sequence of {write a, write b, failing write, delete, external utime, re-create store} up to the depth; after each
    operation read and get_modified_time must agree with the model (last written value or nothing)."""
    create = creator(kind, None)
    a, b = VALS[kind]
    ops = ["wa", "wb", "bad", "del", "new"] if via == "direct" else ["wa", "wb", "bad", "new"]
    n = 0
    base = os.path.join(d, "s")
    os.makedirs(base, exist_ok=True)
    for seq in itertools.product(ops, repeat=depth):
        n += 1
        path = as_path(os.path.join(base, "f"), pk)
        remove(os.path.join(base, "f"))
        st = create(path) if via == "direct" else Mounted.make(create)
        model = None
        last = None
        for i, op in enumerate(seq):
            t_before = time.time()
            if op == "wa" or op == "wb":
                v = a if op == "wa" else b
                st.write(v)
                model = (v,)
            elif op == "bad":
                try:
                    st.write(BADV[kind])
                except Exception:
                    pass
                else:
                    r.violation(f"{kind} ({via}): writing {BADV[kind]!r} did not fail", key=f"{kind} bad write silent")
            elif op == "del":
                remove(os.path.join(base, "f"))
                model = None
                last = None
            elif via == "direct":
                st = create(path)
            else:
                o, st = st, Mounted.make(create)
                st.remote, st.t = o.remote, o.t
            mt = st.get_modified_time()
            r.n["evaluations"] += 1
            where = f"{kind} ({via}, {pk}) after {seq[:i + 1]}"
            if (mt is None) != (model is None):
                r.violation(f"{where}: get_modified_time is {mt!r} although {'nothing' if model is None else 'a value'} is stored",
                            key=f"{kind} {via} mtime none-ness")
                break
            if mt is not None:
                x = instant(mt)
                if last is not None and x < last:
                    r.violation(f"{where}: modified time went back by {last - x} s", key=f"{kind} {via} mtime decreased")
                    break
                if op in ("wa", "wb") and x < t_before - 1:
                    r.violation(f"{where}: modified time {mt!r} is {t_before - x:.1f} s before the write", key=f"{kind} {via} mtime early")
                    break
                last = x
            if model is not None:
                got = st.read()
                if not same(got, model[0]):
                    r.violation(f"{where}: read {short(got)}, last written {short(model[0])}", key=f"{kind} {via} sequence")
                    break
                if instant(st.get_modified_time()) != last:
                    r.violation(f"{where}: reading changed the modified time", key=f"{kind} {via} read changes mtime")
                    break
        r.seen((kind, via, pk, seq))
    r.n["operation_sequences"] += n


def mtimes(r, d, kind, pk):
    """Modified times set from outside, over instants and zones."""
    create = creator(kind, None)
    path = os.path.join(d, "m")
    for tz in ("UTC", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu"):
        os.environ["TZ"] = tz
        time.tzset()
        st = create(as_path(path, pk))
        remove(path)
        if st.get_modified_time() is not None:
            r.violation(f"{kind}: missing file has modified time", key=f"{kind} missing mtime")
        st.write(VALS[kind][0])
        prev = None
        for t in sorted(INSTANTS):
            for dt_ in (0, 0.001, 0.25, 1, 59):
                ns = int((t + dt_) * 1000) * 1_000_000
                os.utime(path, ns=(ns, ns))
                mt = st.get_modified_time()
                r.n["evaluations"] += 1
                r.seen((kind, tz, ns))
                if mt is None or abs(instant(mt) - ns / 1e9) > 0.002:
                    r.violation(f"{kind}: TZ={tz}: file modified at {ns / 1e9} reports {mt!r}", key=f"{kind} mtime {tz}")
                    break
        st2 = create(as_path(os.path.join(path, "below-a-file"), pk))
        if st2.get_modified_time() is not None:
            r.violation(f"{kind}: an inaccessible path has a modified time", key=f"{kind} inaccessible mtime")
        st3 = create(as_path(os.path.join(d, "no", "such", "dir", "f"), pk))
        if st3.get_modified_time() is not None:
            r.violation(f"{kind}: a path in a missing directory has a modified time", key=f"{kind} missing dir mtime")
    os.environ["TZ"] = "UTC"
    time.tzset()


# ------------------------------------------------------------------------------ stores used at the same time
PAR = {"json": ([1, "\r\n"], {"a": None}, "x"), "pickle": ((1, {2}), [None], "x"), "text": ("a\r\nb", "", "xyz"), "binary": (b"\r\n", b"", b"xyz"),
       "touch": (None, None, None)}


class Par:
    """Threads writing to and reading from different stores of one directory (and reading from one store) under the controlled scheduler."""

    def __init__(self, kinds, vias, ops, pk="str"):
        self.args = dict(kinds=kinds, vias=vias, ops=ops, pk=pk)
        self.kinds, self.vias, self.ops, self.pk = kinds, vias, ops, pk
        self.log = []
        self.bad = []

    def describe(self):
        return self.args

    def thread(self, i, k, seq):
        st, kind = self.st[k], self.kinds[k]
        v = PAR[kind][1 if k else 0]
        for op in seq:
            self.log.append((op, k, i))
            try:
                if op == "w":
                    st.write(v)
                    self.model[k] = v
                elif op == "r":
                    got = st.read()
                    if not same(got, self.model[k]):
                        self.bad.append(f"store {k} ({kind}, {self.vias[k]}): thread {i} read {short(got)}, stored: {short(self.model[k])}")
                elif st.get_modified_time() is None:
                    self.bad.append(f"store {k} ({kind}, {self.vias[k]}): thread {i}: no modified time although a value is stored")
            except sched.SchedAbort:
                raise
            except Exception as e:
                self.bad.append(f"store {k} ({kind}, {self.vias[k]}): {op} of thread {i} raised {e!r}")
            self.log.append((op + "'", k, i))

    def body(self, s):
        self.log.clear()
        self.bad.clear()
        self.st, self.model = [], []
        for n, (kind, via) in enumerate(zip(self.kinds, self.vias)):
            create = creator(kind, None)
            path = os.path.join(self.dir, f"f{n}")
            remove(path)
            st = create(as_path(path, self.pk)) if via == "direct" else Mounted.make(create) if via == "mounted" else Mounted.make(lambda p, c=create: Mounted2(c, p))
            st.write(PAR[kind][2])
            self.st.append(st)
            self.model.append(PAR[kind][2])
        return self.main

    def main(self):
        import threading

        ts = [threading.Thread(target=self.thread, args=(i, *o)) for i, o in enumerate(self.ops[1:], 1)]
        for t in ts:
            t.start()
        self.thread(0, *self.ops[0])
        for t in ts:
            t.join()
        for k in range(len(self.st)):
            self.thread("after", k, "rm")

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=()):
        with scratch() as self.dir:
            yield from sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix)

    def once(self, choices, budget, trace=None):
        with scratch() as self.dir:
            return sched.run_once(self.body, choices, budget, trace=trace)


def par_oracle(c, s):
    if s is not None and (s.deadlock or s.livelock):
        return "stores used at the same time block each other forever"
    return c.bad[0] + f" while {c.ops} ran at the same time" if c.bad else None


def par_tasks(quick):
    two = (((0, "w"), (1, "w")), ((0, "wr"), (1, "rw")), ((0, "r"), (1, "w")), ((0, "r"), (0, "r")), ((0, "rm"), (1, "wm")), ((0, "w"), (1, "r"), (1, "r")))
    cs = []
    for n, kind in enumerate(PAR):
        for vias in (("direct", "direct"), ("mounted", "mounted"), ("mounted", "direct"), ("nested", "mounted")):
            for ops in two:
                cs.append(H.kwt(kinds=(kind, kind), vias=vias, ops=ops, pk=("str", "Path")[n % 2]))
        other = list(PAR)[(n + 1) % len(PAR)]
        cs.append(H.kwt(kinds=(kind, other), vias=("mounted", "mounted"), ops=two[1]))
        cs.append(H.kwt(kinds=(kind, other), vias=("mounted", "direct"), ops=two[1]))
    return H.chunk(cs, (H.B(1, 0, b=0, ops="all", cap=600 if quick else 5000), *(() if quick else (H.B(2, 0, b=0, ops="all", cap=5000),))), 4, "par-")


def run_task(task):
    if task[0].startswith("par-"):
        return H.run_cases(task, par_oracle, make=Par)
    r = R()
    with scratch() as d:
        if task[0] == "trip":
            _, kind, part, enc, pk, via, i, n = task
            vs = [(None)] if kind == "touch" else values(kind, part, enc)
            trip(r, d, kind, enc, pk, via, list(itertools.islice(vs, i, None, n)), NAMES[(i + len(part)) % len(NAMES)])
        elif task[0] == "seq":
            sequences(r, d, *task[1:])
        else:
            mtimes(r, d, *task[1:])
        left = [n for n in os.listdir(d) if n.endswith("STAGING") and n not in NAMES]
        if left:
            r.violation(f"staging files left: {left}")
    return r


NAMES = ("f", "with space.json", "é-\u2603", "dots..x.y", "-dash", "STAGING", "x.STAGING", "#%&{}[]'")


def replay(r, v):
    if "case" in v["data"]:
        H.replay_case(r, v, par_oracle, make=Par)
    else:
        from mc.core import _tuplify

        r.absorb(run_task(_tuplify(v["task"])))


def coverage(total, tier):
    return {
        "evaluations": total.n.get("evaluations", 0) + total.n.get("executions", 0), "distinct_nontrivial": len(total.distinct),
        "rule": "one case per (store, encoding, path type, direct/mounted, value) or operation sequence; every code point of every listed "
                "encoding is written at least once (in blocks), all small strings over line terminators and control characters singly; "
                "non-trivial: distinct value or distinct sequence, or distinct order of "
                "operations begun and ended by threads using several stores at once (every schedule within one preemption at any opcode)",
    }


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    for kind, parts in (("text", ("singles", "pairs", "chunks", "blocks")), ("json", ("small", "trees", "big")),
                        ("pickle", ("small", "kinds", "big")), ("binary", ("small", "big")), ("touch", ("x",))):
        for enc in ENC.get(kind, (None,)):
            for part in parts:
                for pk, via in (("str", "direct"), ("Path", "direct"), ("str", "mounted"), ("str", "nested")):
                    if quick and via != "direct" and enc not in (None, "utf-16"):
                        continue
                    if quick and pk == "Path" and enc not in (None, "utf-8", "latin-1"):
                        continue
                    n = 4 if part in ("pairs", "singles", "small") and not (quick and via == "nested") else 1
                    for i in range(n):
                        T.append(("trip", kind, part, enc, pk, via, i, n))
    for kind in VALS:
        for pk, via in (("str", "direct"), ("Path", "direct"), ("str", "mounted")):
            for depth in ((3, 4) if quick else (3, 4, 5, 6)):
                T.append(("seq", kind, pk, via, depth))
            T.append(("mtime", kind, pk))
    return T + par_tasks(quick)
