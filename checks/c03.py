"""C03: an incremental run gives the same outputs and stored values as a run from scratch."""
from checks import histcommon as HC
from checks.stored import R
from mc import hist

LEVEL = "model_checking"
ASSUMPTIONS = HC.ASSUMPTIONS
coverage = HC.coverage


def mk(h, r):
    def on_run(st, out, fresh, o):
        return hist.check_values(h, st, out, o)

    return {"on_run": on_run}


def run_task(task):
    return HC.search_task(task, mk)


replay = HC.replay_with(run_task)


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    T += HC.chunk(((R[n], HC.opt(cap=300 if quick else 20000)) for n in HC.BIG), 1, "big-")
    T += HC.chunk(((R[n], HC.opt(cap=600 if quick else 20000)) for n in HC.MID), 1, "mid-")
    for n in HC.SMALL + HC.MID:
        T += HC.chunk([(R[n], HC.opt(cap=600, reg_rev=True, order=1, cuts=False))], 1, "rev-")
    T += HC.chunk(((R[n], HC.opt(delete_sources=True)) for n in HC.SMALL), 1, "small-")
    s3 = HC.small_specs(3, "oscyl")
    T += HC.chunk(((s, HC.opt(cap=150 if quick else 5000, cuts=not quick or i % 4 == 0, cut_errs=(0,))) for i, s in enumerate(s3)), 6, "n3-")
    T += HC.disk_tasks(quick, 150)
    if not quick:
        from checks.stored import enum_reg_specs
        T += HC.chunk(((s, HC.opt(cap=60, cuts=False)) for s in enum_reg_specs(4, "oscy")), 40, "n4-")
    return T
