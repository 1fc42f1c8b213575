"""Small call graphs: enumeration, construction as real uberjob Plans, and graph facts the oracles use."""
import itertools
from functools import lru_cache

# A spec is (kinds, edges): kinds is a string over {'c': call, 'l': literal}; edges is a tuple of (i, j, k), i < j,
# k a string over {'a': positional argument, 'k': keyword argument, 'd': add_dependency}; 'ad' = both, 'aa' = twice.


def preds(spec):
    kinds, edges = spec
    p = {j: set() for j in range(len(kinds))}
    for i, j, _ in edges:
        p[j].add(i)
    return p


@lru_cache(None)
def ancestors(spec):
    """Strict ancestors of every node (through literals too)."""
    p = preds(spec)
    out = {}
    for j in range(len(spec[0])):
        s = set()
        for i in p[j]:
            s.add(i)
            s |= out[i]
        out[j] = frozenset(s)
    return out


@lru_cache(None)
def call_ancestors(spec):
    return {j: frozenset(i for i in s if spec[0][i] == "c") for j, s in ancestors(spec).items()}


@lru_cache(None)
def consumers(spec):
    """call index -> set of call indexes that take its value as an argument."""
    out = {i: set() for i in range(len(spec[0]))}
    for i, j, k in spec[1]:
        if k != "d":
            out[i].add(j)
    return out


def needed(spec, out_nodes):
    anc = ancestors(spec)
    s = set()
    for o in out_nodes:
        s.add(o)
        s |= anc[o]
    return frozenset(i for i in s if spec[0][i] == "c")


def enum_specs(n, call_edge_kinds=("", "a", "d"), lit_target=True, kinds=None):
    """Every spec with n nodes (topologically numbered), up to renumbering."""
    seen = set()
    for ks in ([kinds] if kinds else map("".join, itertools.product("cl", repeat=n))):
        if "c" not in ks:
            continue
        pairs = [(i, j) for j in range(n) for i in range(j)]
        opts = []
        for i, j in pairs:
            if ks[j] == "l":
                opts.append(("", "d") if lit_target else ("",))
            else:
                opts.append(call_edge_kinds)
        for combo in itertools.product(*opts):
            edges = tuple((i, j, k) for (i, j), k in zip(pairs, combo) if k)
            sp = (ks, edges)
            key = canon(sp)
            if key in seen:
                continue
            seen.add(key)
            yield sp


def canon(spec):
    kinds, edges = spec
    n = len(kinds)
    best = None
    for perm in itertools.permutations(range(n)):
        if any(perm[i] >= perm[j] for i, j, _ in edges):
            continue
        kk = [None] * n
        for i in range(n):
            kk[perm[i]] = kinds[i]
        c = ("".join(kk), tuple(sorted((perm[i], perm[j], k) for i, j, k in edges)))
        if best is None or c < best:
            best = c
    return best


def interesting(spec):
    """Drop specs whose literals/calls are all isolated from each other (nothing can interact)."""
    return bool(spec[1])


# Sharp shapes: each one exercises a path of the ready-node bookkeeping.
SHAPES = {
    "single": ("c", ()),
    "pair": ("cc", ()),
    "chain2": ("cc", ((0, 1, "a"),)),
    "chain3": ("ccc", ((0, 1, "a"), (1, 2, "a"))),
    "join": ("ccc", ((0, 2, "a"), (1, 2, "a"))),
    "joindep": ("ccc", ((0, 2, "d"), (1, 2, "d"))),
    "parallel": ("ccc", ((0, 2, "ad"), (1, 2, "aa"))),
    "fork": ("ccc", ((0, 1, "a"), (0, 2, "a"))),
    "diamond": ("cccc", ((0, 1, "a"), (0, 2, "a"), (1, 3, "a"), (2, 3, "a"))),
    "join3": ("cccc", ((0, 3, "a"), (1, 3, "a"), (2, 3, "a"))),
    "cross": ("cccc", ((0, 2, "a"), (1, 2, "a"), (0, 3, "a"), (1, 3, "a"))),
    "vialit": ("cclc", ((0, 2, "d"), (1, 2, "d"), (2, 3, "a"))),
    "vialitdep": ("cclcc", ((0, 2, "d"), (1, 2, "d"), (2, 3, "d"), (2, 4, "d"))),
    "litchain": ("cllc", ((0, 1, "d"), (1, 2, "d"), (2, 3, "a"))),
    "barrier": ("ccclccc", ((0, 3, "d"), (1, 3, "d"), (2, 3, "d"), (3, 4, "d"), (3, 5, "d"), (3, 6, "d"))),
    "twochains": ("cccc", ((0, 1, "a"), (2, 3, "a"))),
    "deep": ("ccccc", ((0, 1, "a"), (1, 2, "a"), (0, 3, "a"), (3, 4, "a"), (2, 4, "a"))),
    "skip": ("ccc", ((0, 1, "a"), (1, 2, "a"), (0, 2, "a"))),
    "wjoin": ("ccccc", ((0, 2, "a"), (1, 2, "a"), (0, 3, "d"), (1, 3, "k"), (2, 4, "a"), (3, 4, "a"))),
}


def build(spec, fns, plan=None, lit_values=None, dep_rev=False, lit_deps_last=True):
    """Construct the plan with the public API; returns (plan, nodes)."""
    import uberjob

    kinds, edges = spec
    plan = plan or uberjob.Plan()
    nodes = []
    for j, kd in enumerate(kinds):
        if kd == "l":
            nodes.append(plan.lit(lit_values[j] if lit_values else ("lit", j)))
        else:
            args = []
            kwargs = {}
            for i, jj, k in edges:
                if jj != j:
                    continue
                for x, ch in enumerate(k):
                    if ch == "a":
                        args.append(nodes[i])
                    elif ch == "k":
                        kwargs[f"k{i}_{x}"] = nodes[i]
            nodes.append(plan.call(fns[j], *args, **kwargs))
    deps = [(i, j) for i, j, k in edges if "d" in k]
    if dep_rev:
        deps.reverse()
    for i, j in deps:
        plan.add_dependency(nodes[i], nodes[j])
    return plan, nodes


def value(spec, j, memo=None):
    """The term that node j evaluates to (calls return ('v', j, args, kwargs))."""
    memo = {} if memo is None else memo
    if j in memo:
        return memo[j]
    kinds, edges = spec
    if kinds[j] == "l":
        r = ("lit", j)
    else:
        args = []
        kwargs = []
        for i, jj, k in edges:
            if jj != j:
                continue
            for x, ch in enumerate(k):
                if ch == "a":
                    args.append(value(spec, i, memo))
                elif ch == "k":
                    kwargs.append((f"k{i}_{x}", value(spec, i, memo)))
        r = ("v", j, tuple(args), tuple(kwargs))
    memo[j] = r
    return r


# Output specifications: ('none',) | ('node', i) | ('list', (i, ...)) | ('dict', (i,...)) | ('lit',)
def out_nodes(out):
    if out[0] == "node":
        return (out[1],)
    if out[0] in ("list", "dict", "nest", "set"):
        return out[1]
    return ()


def build_out(out, nodes):
    k = out[0]
    if k == "none":
        return None
    if k == "lit":
        return [1, ("x",)]
    if k == "node":
        return nodes[out[1]]
    if k == "list":
        return [nodes[i] for i in out[1]]
    if k == "set":
        return {nodes[i] for i in out[1]}
    if k == "dict":
        return {f"o{i}": nodes[i] for i in out[1]}
    if k == "nest":
        return ([nodes[i] for i in out[1]], {"z": (nodes[out[1][0]], 5)})
    raise AssertionError(out)


def out_value(spec, out):
    memo = {}
    k = out[0]
    if k == "none":
        return None
    if k == "lit":
        return [1, ("x",)]
    if k == "node":
        return value(spec, out[1], memo)
    v = [value(spec, i, memo) for i in out[1]]
    if k == "list":
        return v
    if k == "set":
        return set(v)
    if k == "dict":
        return {f"o{i}": x for i, x in zip(out[1], v)}
    return (v, {"z": (v[0], 5)})


def sinks(spec):
    has = {i for i, _, _ in spec[1]}
    return tuple(i for i in range(len(spec[0])) if i not in has)


def all_outputs(spec, rich=False):
    n = len(spec[0])
    outs = [("list", sinks(spec)), ("none",)]
    for i in range(n):
        outs.append(("node", i))
    if rich:
        outs.append(("lit",))
        outs.append(("nest", sinks(spec)))
        outs.append(("dict", tuple(range(n))))
        for i in range(n):
            for j in range(i + 1, n):
                outs.append(("list", (i, j)))
    return outs
