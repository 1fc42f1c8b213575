"""Raise an exception at the k-th point, inside given source files, at which CPython would deliver a signal."""
import contextlib
import sys

from mc.sched import switch_offsets

TOOL = 4


class P:
    fired = False
    where = ""
    n = 0


@contextlib.contextmanager
def points(prefix, k, exc):
    """k-th real switch point (function entry, call return, loop edge) executed in files under prefix raises exc."""
    mon = sys.monitoring
    p = P()
    p.n = k
    cache = {}
    mon.use_tool_id(TOOL, "pyint")

    def ev(code, offset):
        offs = cache.get(code)
        if offs is None:
            if not code.co_filename.startswith(prefix):
                cache[code] = ()
                return mon.DISABLE
            offs = cache[code] = frozenset(switch_offsets(code))
        if offset not in offs:
            return mon.DISABLE if not offs else None
        p.n -= 1
        if p.n == 0:
            p.fired = True
            p.where = f"{code.co_name}+{offset}"
            raise exc()

    try:
        mon.register_callback(TOOL, mon.events.INSTRUCTION, ev)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.INSTRUCTION)
        yield p
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
