"""C08: a run cut short at any point leaves stores that the next run repairs correctly."""
import bisect

from checks import histcommon as HC
from checks.stored import R, enum_reg_specs
from mc import harness, hist, worlds
from mc.worlds import STORED

LEVEL = "model_checking"
ASSUMPTIONS = HC.ASSUMPTIONS + ["store writes are atomic (that is C11's business for the file stores)"]
coverage = HC.coverage


def _touched_after(h, log, j):
    """A dependent source upstream of j was rewritten (as a call's side effect) after j's store was."""
    w = max(k for k, e in enumerate(log) if e == ("W", j))
    return any(len(e) == 3 and e[0] == "W" and e[1] in worlds.reg_up(h.spec)[j] for e in log[w:])


def mk(h, r):
    memo = {}

    def next_run(after, out, fresh):
        """The next run from this state; its behaviour depends only on the order of the times, so it is memoised on that."""
        ts = sorted({t for _, t in after if t is not None})
        rank = None if fresh is None else (bisect.bisect_left(ts, fresh), fresh in ts)
        key = (h.canon(after), out, rank)
        if key not in memo:
            o2 = h.run(after, out, fresh)
            r.n["repairs"] += 1
            m = None
            if o2.deadlock:
                m = "the next run hangs"
            elif ("ret",) not in o2.log:
                m = f"the next run fails: {o2.error!r} from {o2.error.__cause__!r}"
            else:
                m = hist.check_values(h, after, out, o2)
                m = m and "after the next run: " + m
            memo[key] = m, {j for k, j in hist.counts(o2.log) if k in "ws"}
        else:
            r.n["repairs_memoised"] += 1
        return memo[key]

    def repair(st, fresh, o, written):
        for out in (("none",), h.full):
            m, did = next_run(o.after, out, fresh)
            if m:
                return m
            if did & set(written):
                return f"the next run recomputed {sorted(did & set(written))}, completely written before the cut"
        return None

    def on_cut(st, fresh, lab, o):
        written = [e[1] for e in o.log if e[0] == "W" and len(e) == 2 and h.kinds[e[1]] in STORED]
        written = [j for j in written if o.cut != ("W", j)]
        if h.stored_writer:  # such a dependent source is always older than its stored writer: out of date in every run
            written = []
        else:
            written = [j for j in written if not _touched_after(h, o.log, j)]
        m = repair(st, fresh, o, written)
        return m and f"cut {o.cut}: {m}"

    def on_run(st, out, fresh, o):
        # a state reached through any history must be repairable too
        if ("ret",) in o.log:
            m = hist.check_values(h, st, out, o)
            return m and f"run from a reachable state: {m}"
        return f"a run from a reachable state failed: {o.error!r} from {o.error.__cause__!r}"

    return {"on_cut": on_cut, "on_run": on_run}


def run_task(task):
    return HC.search_task(task, mk)


replay = HC.replay_with(run_task)


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    par = (2, "random", tuple(harness.budget_of(harness.B(1, 1, p=0)).items()))
    par0 = (2, None, tuple(harness.budget_of(harness.B(1, 1, p=0)).items()))
    for n in HC.BIG + HC.MID + HC.SMALL:
        spec = R[n]
        if n in HC.BIG and quick:
            T += HC.chunk([(spec, HC.opt(cap=60, par=par, par_cap=6, freshes=False))], 1, "par-")
        else:
            T += HC.chunk([(spec, HC.opt(cap=200 if quick else 1000, par=par, par_cap=8 if quick else 200, freshes=False))], 1, "par-")
            T += HC.chunk([(spec, HC.opt(cap=200 if quick else 1000, par=par0, par_cap=8 if quick else 200, freshes=False, order=1, reg_rev=True))], 1, "par0-")
        T += HC.chunk([(spec, HC.opt(cap=5000))], 1, "named-")
    T += HC.disk_tasks(quick, 25, freshes=False)
    s3 = HC.small_specs(3, "oscyl")
    T += HC.chunk(((s, HC.opt(cap=5000, freshes=False)) for s in s3), 10, "n3-")
    s4 = [s for s in enum_reg_specs(4, "osc") if s[0].count("s") >= 2 and len(s[1]) >= 3]
    T += HC.chunk(((s, HC.opt(cap=6, freshes=False, cut_errs=(None,))) for s in (s4[seed % 24::24] if quick else s4)), 20, "n4-")
    if not quick:
        T += HC.chunk(((s, HC.opt(cap=200)) for s in enum_reg_specs(4, "oscy")), 20, "n4t-")
    return T
