"""Process set-up shared by every check.  Import this first.

`boot(sched=True)` loads uberjob from /repo/src's current working tree (never from a .pyc), with threading, queue, time
and random already replaced by the controlled primitives of mc.sched when sched is true.
"""
import gc
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "uberjob") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_order = {"mode": 0, "n": 0}
_ids = {}


def reexec():
    """Make the interpreter deterministic: fixed string hashing, no bytecode caching, no inherited Python settings."""
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if all(os.environ.get(k) == v for k, v in want.items()) and os.environ.get("MC_BOOT") == "1":
        return
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(want)
    env["MC_BOOT"] = "1"
    os.execve(sys.executable, [sys.executable, "-B", *sys.argv], env)


def boot(sched=True):
    sys.dont_write_bytecode = True
    sys.setswitchinterval(0.005)
    # Third-party imports first: they may use their cached bytecode and the real threading primitives.
    import concurrent.futures  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    import multiprocessing.pool  # noqa: F401
    import asyncio  # noqa: F401
    import logging  # noqa: F401
    import tempfile  # noqa: F401
    import json  # noqa: F401
    import pickle  # noqa: F401
    import traceback  # noqa: F401
    import zoneinfo  # noqa: F401

    import networkx  # noqa: F401

    try:
        import nxv  # noqa: F401
    except Exception:
        pass
    if sched:
        from mc import sched as _s

        _s.install()
    sys.pycache_prefix = "/nonexistent/verif-no-pyc"
    sys.path.insert(0, SRC)
    import uberjob

    assert os.path.realpath(uberjob.__file__).startswith(os.path.realpath(PKG)), uberjob.__file__
    import uberjob.graph
    import uberjob.progress
    import uberjob.stores  # noqa: F401

    _patch_node_hash(uberjob.graph.Node)
    gc.collect()
    gc.freeze()
    return uberjob


def _patch_node_hash(Node):
    """Sets of nodes iterate in an order that depends on addresses; make that order a harness-controlled choice."""
    if Node.__hash__ is not object.__hash__ or Node.__eq__ is not object.__eq__ or Node.__new__ is not object.__new__:
        return

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        _order["n"] = n = _order["n"] + 1
        _ids[id(self)] = n
        return self

    def __hash__(self):
        n = _ids.get(id(self), 0)
        m = _order["mode"]
        if m == 0:
            return n
        if m == 1:
            return 1_000_003 - n
        return (n * 7919) % 1_000_003

    Node.__new__ = __new__
    Node.__hash__ = __hash__


def reset_order(mode=0):
    _order["mode"] = mode
    _order["n"] = 0
    _ids.clear()
