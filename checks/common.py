"""Case generators shared by the SCHED checks."""
from mc import harness as H
from mc import plans

SCHEDS = (None, "random")
SMALL = ("join", "joindep", "parallel", "chain3", "skip", "fork", "vialit", "litchain")
MID = ("diamond", "join3", "cross", "vialitdep", "wjoin", "deep", "barrier")


def shape_cases(names, Ws=(2, 3), scheds=SCHEDS, **kw):
    for n in names:
        for W in Ws:
            for sc in scheds:
                yield H.kwt(spec=plans.SHAPES[n], W=W, scheduler=sc, **kw)


def layered(w, d, k="a"):
    edges = []
    for l in range(1, d):
        for j in range(w):
            for i in range(w):
                edges.append(((l - 1) * w + i, l * w + j, k))
    return ("c" * (w * d), tuple(edges))


def big_specs():
    yield layered(4, 4)
    yield layered(3, 6, "d")
    yield ("c" * 30, tuple((i, 29, "a") for i in range(29)))
    yield ("c" * 30, tuple((0, i, "a") for i in range(1, 30)))
    yield ("c" * 25, tuple((i, i + 1, "a") for i in range(24)))
    yield ("c" * 12 + "l" + "c" * 12, tuple((i, 12, "d") for i in range(12)) + tuple((12, j, "d") for j in range(13, 25)))
    yield ("c" * 31, tuple(((j - 1) // 2, j, "a") for j in range(1, 31)))
    yield ("c" * 31, tuple((30 - j, 30 - (j - 1) // 2, "a") for j in range(30, 0, -1)))


def calls(spec):
    return [i for i, k in enumerate(spec[0]) if k == "c"]


def specs(n, kinds):
    return [s for s in plans.enum_specs(n, kinds) if plans.interesting(s)]


def subsets(xs, lo=1, hi=None):
    import itertools

    xs = list(xs)
    for k in range(lo, (len(xs) if hi is None else hi) + 1):
        yield from itertools.combinations(xs, k)
