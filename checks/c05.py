"""C05: exactly the out-of-date stored values are rebuilt; a repeated run does nothing."""
from checks import histcommon as HC
from checks.stored import R, enum_reg_specs
from mc import harness, hist

LEVEL = "model_checking"
ASSUMPTIONS = HC.ASSUMPTIONS + [
    "fresh_time against a dependent source with no stored value or source upstream is not judged (the text does not settle it)",
]
coverage = HC.coverage


def mk(h, r):
    def on_run(st, out, fresh, o):
        return hist.check_work(h, st, out, fresh, o)

    return {"on_run": on_run}


def run_task(task):
    return HC.search_task(task, mk)


replay = HC.replay_with(run_task)


def outs_of(spec):
    n = len(spec[0])
    return tuple([("none",), ("list", tuple(range(n))), *(("node", i) for i in range(n))])


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    par = (2, "random", tuple(harness.budget_of(harness.B(1, 1)).items()))
    par0 = (2, None, tuple(harness.budget_of(harness.B(1, 1)).items()))
    for n in HC.BIG + HC.MID + HC.SMALL:
        T += HC.chunk([(R[n], HC.opt(cap=5000, cuts=n not in HC.BIG, cut_errs=(0,), outs=outs_of(R[n])))], 1, "named-")
        T += HC.chunk([(R[n], HC.opt(cap=5000, cuts=False, outs=outs_of(R[n]), reg_rev=True, order=1, delete_sources=True))], 1, "rev-")
        T += HC.chunk([(R[n], HC.opt(cap=200 if quick else 2000, cuts=False, par=par if i else par0, par_cap=30 if quick else 300, freshes=False, order=2 * i))
                       for i in (0, 1)], 1, "par-")
    T += HC.disk_tasks(quick, 500)
    s3 = HC.small_specs(3, "oscyl") + [s for s in HC.small_specs(2, "oscyLl") if "L" in s[0]]
    T += HC.chunk(((s, HC.opt(cap=5000, cuts=True, cut_errs=(0,), outs=outs_of(s))) for i, s in enumerate(s3)), 6, "n3-")
    # every order of the modified times, ties included (stores may have any times, not only those of a history of runs)
    T += HC.chunk([(R[n], HC.opt(orders=True)) for n in HC.BIG + HC.MID + HC.SMALL], 1, "orders-")
    T += HC.chunk([(s, HC.opt(orders=True, outs=outs_of(s))) for s in s3 if sum(k in "soyL" for k in s[0]) >= 2], 12, "orders3-")
    s4 = list(enum_reg_specs(4, "osc", ("", "a", "d"), must="s"))
    s4 = [s for s in s4 if s[0].count("s") >= 2]
    T += HC.chunk(((s, HC.opt(cap=40, cuts=False, freshes=False)) for s in (s4[seed % 8::8] if quick else s4)), 60, "n4-")
    if not quick:
        T += HC.chunk(((s, HC.opt(cap=60, cuts=False, outs=outs_of(s))) for s in enum_reg_specs(4, "oscy")), 40, "n4t-")
    return T
