"""File-store helpers shared by C11, C12 and C18."""
import contextlib
import os
import pathlib
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same(a, b, memo=None):
    """Equal and of the same type, all the way down."""
    memo = set() if memo is None else memo
    if (id(a), id(b)) in memo:
        return True
    memo.add((id(a), id(b)))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        return all(same(k, j, memo) and same(a[k], b[j], memo) for k, j in zip(a, b))
    if isinstance(a, float):
        return a == b and repr(a) == repr(b)
    if hasattr(a, "__dict__") and not isinstance(a, type) and type(a).__eq__ is object.__eq__:
        return same(a.__dict__, b.__dict__, memo)
    return a == b


def as_path(p, kind):
    return pathlib.Path(p) if kind == "Path" else p


def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    else:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(p)
