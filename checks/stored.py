"""Registry plans shared by checks."""
import itertools

from mc import harness as H
from mc import plans, worlds

# name: spec.  o source, s stored call, c call, y dependent source, l literal, L stored literal
R = {
    "src1": ("os", ((0, 1, "a"),)),
    "chain": ("oss", ((0, 1, "a"), (1, 2, "a"))),
    "chain3": ("osss", ((0, 1, "a"), (1, 2, "a"), (2, 3, "a"))),
    "mid": ("oscs", ((0, 1, "a"), (1, 2, "a"), (2, 3, "a"))),
    "fork": ("osss", ((0, 1, "a"), (1, 2, "a"), (1, 3, "a"))),
    "forkc": ("osscc", ((0, 1, "a"), (1, 2, "a"), (1, 3, "d"), (2, 4, "a"), (3, 4, "a"))),
    "join": ("sss", ((0, 2, "a"), (1, 2, "a"))),
    "diamond": ("ssss", ((0, 1, "a"), (0, 2, "a"), (1, 3, "a"), (2, 3, "a"))),
    "deponly": ("oss", ((0, 1, "a"), (1, 2, "d"))),
    "depcall": ("oscs", ((0, 1, "a"), (1, 2, "d"), (2, 3, "d"))),
    "both": ("ss", ((0, 1, "ad"),)),
    "unstored": ("ocss", ((0, 1, "a"), (1, 2, "a"), (1, 3, "a"))),
    "twosrc": ("ooss", ((0, 2, "a"), (1, 2, "a"), (1, 3, "a"), (2, 3, "a"))),
    "dsrc": ("ocy", ((0, 1, "a"), (1, 2, "d"))),
    "dsrcs": ("ocys", ((0, 1, "a"), (1, 2, "d"), (2, 3, "a"))),
    "dsrcst": ("osys", ((0, 1, "a"), (1, 2, "d"), (2, 3, "a"))),
    "dsrcl": ("oclys", ((0, 1, "a"), (1, 2, "d"), (2, 3, "d"), (3, 4, "a"))),
    "dsrcl2": ("oclly", ((0, 1, "a"), (1, 2, "d"), (1, 3, "d"), (2, 4, "d"), (3, 4, "d"))),
    "dsrcc": ("scyc", ((0, 1, "a"), (1, 2, "d"), (2, 3, "a"))),
    "litdep": ("osls", ((0, 1, "a"), (1, 2, "d"), (2, 3, "d"))),
    "litarg": ("osls", ((0, 1, "a"), (1, 2, "d"), (2, 3, "a"))),
    "lone": ("oscsc", ((0, 1, "a"),)),
    "lone2": ("clsls", ((1, 4, "a"),)),
    "lit22": ("sslcs", ((0, 2, "d"), (1, 2, "d"), (2, 3, "d"), (2, 4, "d"))),
    "slit": ("Ls", ((0, 1, "a"),)),
    "slitdep": ("oLs", ((0, 1, "d"), (1, 2, "a"))),
    "kw": ("oss", ((0, 1, "k"), (0, 2, "k"), (1, 2, "ak"))),
    "two": ("osos", ((0, 1, "a"), (2, 3, "a"))),
    "tail": ("osccs", ((0, 1, "a"), (1, 2, "a"), (1, 3, "a"), (2, 4, "a"), (3, 4, "d"))),
    "upstored": ("cscs", ((0, 1, "a"), (1, 2, "d"), (0, 2, "a"), (2, 3, "a"))),
}


def regs(spec):
    return [j for j, k in enumerate(spec[0]) if k in worlds.REG]


def states(spec, missing_sources=False):
    """One representative initial store state per distinct (missing set, out-of-date set, order class)."""
    rs = regs(spec)
    n = len(rs)
    seen = {}
    for combo in itertools.product((None, *range(1, n + 1)), repeat=n):
        used = sorted({c for c in combo if c is not None})
        if used != list(range(1, len(used) + 1)):
            continue
        if not missing_sources and any(c is None and spec[0][j] == "o" for j, c in zip(rs, combo)):
            continue
        st, amb = worlds.stale_set(spec, dict(zip(rs, combo)), None)
        miss = frozenset(j for j, c in zip(rs, combo) if c is None)
        seen.setdefault((miss, st), tuple(combo))
    return list(seen.values())


def state_cases(names, Ws=(2,), scheds=(None, "random"), outs=None, **kw):
    for n in names:
        spec = R[n]
        for st in states(spec):
            for W in Ws:
                for sc in scheds:
                    for out in (outs(spec) if outs else (("list", tuple(range(len(spec[0])))),)):
                        yield H.kwt(spec=spec, state=st, W=W, scheduler=sc, out=out, **kw)


def enum_reg_specs(n, kinds="osc", edges=("", "a", "d"), must="s"):
    """All registry specs with n nodes over the given kinds, up to renumbering."""
    seen = set()
    for ks in map("".join, itertools.product(kinds, repeat=n)):
        if not any(k in must for k in ks):
            continue
        pairs = [(i, j) for j in range(n) for i in range(j)]
        opts = []
        for i, j in pairs:
            if ks[j] == "o":
                opts.append(("",))
            elif ks[j] in "ylL":
                opts.append(("", "d"))
            else:
                opts.append(edges)
        for combo in itertools.product(*opts):
            es = tuple((i, j, k) for (i, j), k in zip(pairs, combo) if k)
            if n > 1 and not es:
                continue
            sp = (ks, es)
            if any(worlds.writer_of(sp)[y] is None for y in worlds.writer_of(sp)):
                continue  # a dependent source needs a writer call
            ys = [j for j, k in enumerate(ks) if k == "y"]
            if any(sum(1 for i, jj, _ in es if jj == y) > 1 for y in ys):
                continue
            c = plans.canon(sp)
            if c in seen:
                continue
            seen.add(c)
            yield sp


# ------------------------------------------------------------------ runs with a registry, shared by C01, C04 and C06
def live_ancestors(spec, j, stale):
    """Ancestors reached without passing through an up-to-date stored value or source."""
    kinds = spec[0]
    pr = plans.preds(spec)
    out, todo = set(), list(pr[j])
    while todo:
        i = todo.pop()
        if i in out or (kinds[i] in worlds.REG and i not in stale):
            continue
        out.add(i)
        todo.extend(pr[i])
    return out


def live_calls(case):
    """call -> the calls it has to wait for in this run; None where the out-of-date set is not determined."""
    if not hasattr(case, "live"):
        kinds = case.spec[0]
        stale, amb = worlds.stale_set(case.spec, case.times, case.fresh)
        case.live = None if amb else {
            j: frozenset(i for i in live_ancestors(case.spec, j, stale) if kinds[i] in worlds.CALLS)
            for j in range(len(kinds)) if kinds[j] in worlds.CALLS
        }
    return case.live


def by_kind(plain, registry):
    """An oracle that judges SCases with `registry` and other cases with `plain`."""
    return lambda case, s: (registry if isinstance(case, worlds.SCase) else plain)(case, s)


def make_any(**kw):
    return worlds.SCase(**kw) if "state" in kw else H.Case(**kw)


def enum_state_cases(specs, outs=None, **kw):
    for sp in specs:
        for st in states(sp):
            for out in (outs(sp) if outs else (("list", tuple(range(len(sp[0])))),)):
                yield H.kwt(spec=sp, state=st, out=out, **kw)


def call_fail_cases(names, retries=(None,), max_errors=(0, None), Ws=(2,), scheds=(None,)):
    """Every single call of every plan failing (for good, or once), from every store state."""
    for n in names:
        sp = R[n]
        for st in states(sp):
            for j, k in enumerate(sp[0]):
                if k not in worlds.CALLS:
                    continue
                for W in Ws:
                    for sc in scheds:
                        for rt in retries:
                            for m in max_errors:
                                for times in (None, 1) if rt else (None,):
                                    yield H.kwt(spec=sp, state=st, W=W, scheduler=sc, out=("list", tuple(range(len(sp[0])))),
                                                fail=((("s", j), times),), retry=rt, max_errors=m)
