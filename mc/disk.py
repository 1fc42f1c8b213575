"""The bundled file-backed stores (and LiteralSource) as the stores of a worlds.World: values live in real files, times are the files' times."""
import ast
import datetime as dt
import json
import os
import pickle
import shutil
import zlib

from mc import sched, worlds

GAPS = (0.001, 1.0, 86400.0, 0.25, 3600.0, 61.5)
BASE = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)


def stamp(t):
    """The time of tick t: long before any file is written."""
    if t is None:
        return None
    n = len(GAPS)
    s = (t // n) * sum(GAPS) + sum(GAPS[: t % n])
    return BASE + dt.timedelta(seconds=s)


def tup(v):
    return tuple(map(tup, v)) if isinstance(v, list) else v


# how a value is turned into what the store takes, how it is got back, and how it is read from and put into a file without the store
def _dump(path, data):
    with open(path, "wb") as f:
        f.write(data)


def _load(path):
    with open(path, "rb") as f:
        return f.read()


CODECS = {
    "pickle": (lambda v: v, lambda x: x, lambda p: pickle.loads(_load(p)), lambda p, v: _dump(p, pickle.dumps(v))),
    "json": (lambda v: v, tup, lambda p: tup(json.loads(_load(p))), lambda p, v: _dump(p, json.dumps(v).encode())),
    "text": (repr, ast.literal_eval, lambda p: ast.literal_eval(_load(p).decode()), lambda p, v: _dump(p, repr(v).encode())),
    "binary": (lambda v: repr(v).encode(), lambda x: ast.literal_eval(x.decode()), lambda p: ast.literal_eval(_load(p).decode()),
               lambda p, v: _dump(p, repr(v).encode())),
}
CODECS["mounted"] = CODECS["path"] = CODECS["pickle"]


def make_class():
    import pathlib

    import uberjob
    from uberjob import stores

    class Mounted(stores.MountedStore):
        def __init__(self, remote):
            super().__init__(stores.PickleFileStore)
            self.remote = remote

        def copy_to_local(self, local_path):
            shutil.copyfile(self.remote, local_path)

        def copy_from_local(self, local_path):
            shutil.copyfile(local_path, self.remote)

        def get_modified_time(self):
            return stores.get_modified_time(self.remote)

    class DiskStore(uberjob.ValueStore):
        def __init__(self, w, i):
            self.w, self.i = w, i
            k = w.kinds[i]
            sel = (i + w.variant) % 5
            self.kind = ("pickle", "json", "text", "binary", "mounted")[sel]
            if k == "o":
                self.kind = ("literal", "path", "json", "path", "literal")[sel]
            path = os.path.join(w.dir, f"{self.kind}{i}.v1")
            self.path = pathlib.Path(path) if sel % 2 else path
            self.inner = {"pickle": stores.PickleFileStore, "json": stores.JsonFileStore, "text": stores.TextFileStore, "mounted": Mounted,
                          "binary": stores.BinaryFileStore, "literal": lambda p: None, "path": lambda p: stores.PathSource(p, required=False)}[self.kind](self.path)
            if self.kind != "literal":
                self.enc, self.dec, self.load, self.dump = CODECS[self.kind]

        # -- what run uses
        def read(self):
            w = self.w
            w.op("r", self.i)
            try:
                v = self.inner.read()
            except Exception:
                w.log.append(("xr", self.i))
                raise
            if self.kind == "path":
                assert v is self.path
                v = self.load(v)
            elif self.kind != "literal":
                v = self.dec(v)
            v = worlds.Rd(self.i, v) if w.norm else v
            w.done("R", self.i)
            return v

        def write(self, value):
            w = self.w
            w.op("w", self.i)
            v = worlds.strip(value)
            self.inner.write(self.enc(v))
            w.tick()
            w.written.append((self.i, value))
            w.done("W", self.i)

        def get_modified_time(self):
            w = self.w
            w.op("m", self.i)
            t = self.inner.get_modified_time()
            w.done("M", self.i)
            return t

        # -- what the world uses
        def put(self, v, t):
            if self.kind == "literal":
                self.inner = stores.LiteralSource(v, stamp(t))
                return
            if t is None:
                if os.path.exists(self.path):
                    os.remove(self.path)
                return
            self.dump(self.path, v)
            ns = int(stamp(t).timestamp() * 1000) * 10**6
            os.utime(self.path, ns=(ns, ns))
            self.w.ticks[ns] = t

        def side(self, v):
            self.dump(self.path, v)
            self.w.tick()

        def now(self):
            """value, time in ns or None"""
            if self.kind == "literal":
                t = self.inner.modified_time
                return self.inner.value, None if t is None else int(t.timestamp() * 1000) * 10**6
            try:
                return self.load(self.path), os.stat(self.path).st_mtime_ns
            except FileNotFoundError:
                return None, None
            except Exception as e:
                return ("unreadable", type(e).__name__), os.stat(self.path).st_mtime_ns

    return DiskStore


_class = None


class DiskWorld(worlds.World):
    def __init__(self, spec, dir, **kw):
        self.dir = dir
        self.ticks = {}
        self.variant = zlib.crc32(repr(spec).encode()) + 2 * kw.get("reg_rev", False)
        super().__init__(spec, **kw)

    def new_store(self, j):
        global _class
        if _class is None:
            _class = make_class()
        return _class(self, j)

    def tick(self):
        """Wait until the file system's clock has moved on."""
        p = os.path.join(self.dir, "probe")
        first = None
        while True:
            _dump(p, b"")
            t = os.stat(p).st_mtime_ns
            if first is None:
                first = t
            if t > first + 10_000:
                return
            sched._real_sleep(0.0003)

    def stamp(self, t):
        return stamp(t)

    def side_write(self, y, v):
        self.stores[y].side(v)

    def get(self):
        st = [self.stores[j].now() for j in sorted(self.stores)]
        new = sorted({t for _, t in st if t is not None and t not in self.ticks})
        return tuple((v, None if t is None else self.ticks[t] if t in self.ticks else self.clock + 1 + new.index(t)) for v, t in st)

    def set(self, st, clock):
        self.ticks = {}
        for j, (v, t) in zip(sorted(self.stores), st):
            if t is not None:
                self.ticks[int(stamp(t).timestamp() * 1000) * 10**6] = t
            self.stores[j].put(v, t)
        self.clock = clock
