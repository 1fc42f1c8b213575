"""C02: run returns exactly what direct evaluation of the call graph would return."""
import collections
import itertools

from checks.common import MID, SCHEDS, SMALL, big_specs, shape_cases, specs
from mc import harness as H
from mc import plans
from mc.core import R as Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "expression terms up to the stated depth and width over two calls, one node-valued literal and plain objects",
    "schedules: deviation bounds as in DESIGN.md",
]

# ------------------------------------------------------------------------------------------------ terms
# 'A','B' call results; 'L' plan.lit; 'C','D' plain objects; ('list'|'tuple'|'set', t...), ('dict', (k, v)...);
# opaque containers that are not exact built-in types: ('sub', kind, t...)
LEAVES = ("A", "B", "C")
OPAQUE = ("lsub", "nt", "od", "fset", "dd", "deque", "dsub", "ssub", "tsub")


class LSub(list):
    pass


class TSub(tuple):
    pass


class DSub(dict):
    pass


class SSub(set):
    pass


NT = collections.namedtuple("NT", "x")


def hashable(t):
    return isinstance(t, str) or (t[0] == "tuple" and all(map(hashable, t[1:]))) or (t[0] in ("fset", "nt") and all(map(hashable, t[1:])))


def containers(children, width=2, dict_width=1):
    cs = list(children)
    hs = [c for c in cs if hashable(c)]
    for k in ("list", "tuple"):
        for w in range(width + 1):
            for combo in itertools.product(cs, repeat=w):
                yield (k, *combo)
    for w in range(width + 1):
        for combo in itertools.combinations(hs, w):
            yield ("set", *combo)
    for w in range(dict_width + 1):
        for ks in itertools.permutations(hs, w):
            for vs in itertools.product(cs, repeat=w):
                yield ("dict", *zip(ks, vs))


def opaque(children):
    for c in children:
        for k in OPAQUE:
            if k in ("fset", "ssub") and not hashable(c):
                continue
            yield (k, c)


def terms(depth, width=2, dict_width=1):
    t1 = list(containers(LEAVES, width, 2)) + list(opaque(LEAVES))
    if depth == 1:
        return list(LEAVES) + ["L"] + t1
    small = list(LEAVES) + list(containers(LEAVES, 1, 1)) + list(opaque(("A", "C")))
    t2 = list(containers(list(LEAVES) + t1, width, dict_width))
    t2 += list(opaque(list(t1)))
    if depth == 2:
        return t2
    mid = [("list", "A", "C"), ("tuple", "A"), ("dict", ("C", "A")), ("dict", ("A", "C")), ("set", "A"), ("list", "C"), ("list",),
           ("dict",), ("tuple",), ("lsub", "A"), ("tuple", ("tuple", "A"))]
    d2 = list(containers(mid + ["A", "C"], 2, 1))
    return list(containers(d2 + ["B", "D"], 1, 1)) + [(k, x, y) for k in ("list", "tuple") for x in d2[::3] for y in small[::2]]


def subst(t, m):
    """The term with other leaves."""
    if isinstance(t, str):
        return m.get(t, t)
    if t[0] == "dict":
        return ("dict", *((subst(k, m), subst(v, m)) for k, v in t[1:]))
    return (t[0], *(subst(x, m) for x in t[1:]))


class Env:
    """Builds a term twice: symbolically (with nodes) and directly (with the values)."""

    def __init__(self, nodes, values, consts):
        self.nodes, self.values, self.consts = nodes, values, consts

    def has_node(self, t):
        if isinstance(t, str):
            return t in self.nodes
        if t[0] in OPAQUE:
            return False
        return any(self.has_node(x) for x in t[1:]) if t[0] != "dict" else any(self.has_node(k) or self.has_node(v) for k, v in t[1:])

    def sym(self, t):
        """The symbolic value and a function same(actual) -> message."""
        if isinstance(t, str):
            if t in self.nodes:
                return self.nodes[t], self.values[t], True
            return self.consts[t], self.consts[t], False
        k = t[0]
        if k in OPAQUE:
            x = self.sym(t[1])[0]
            o = {"lsub": lambda: LSub([x]), "nt": lambda: NT(x), "od": lambda: collections.OrderedDict(a=x),
                 "fset": lambda: frozenset([x]), "dd": lambda: collections.defaultdict(int, a=x),
                 "deque": lambda: collections.deque([x]), "dsub": lambda: DSub(a=x), "ssub": lambda: SSub([x]),
                 "tsub": lambda: TSub([x])}[k]()
            return o, o, False
        if k == "dict":
            ps = [(self.sym(a), self.sym(b)) for a, b in t[1:]]
            s = {a[0]: b[0] for a, b in ps}
            if any(a[2] or b[2] for a, b in ps):
                return s, ("D", tuple((a[1], b[1]) for a, b in ps)), True
            return s, s, False
        cs = [self.sym(x) for x in t[1:]]
        typ = {"list": list, "tuple": tuple, "set": set}[k]
        s = typ(c[0] for c in cs)
        if any(c[2] for c in cs):
            return s, (typ, tuple(c[1] for c in cs)), True
        return s, s, False


def realize(x):
    """A structure of exact built-ins from an expectation."""
    if type(x) is tuple and len(x) == 2 and x[0] in (list, tuple, set):
        return x[0](realize(c) for c in x[1])
    if type(x) is tuple and len(x) == 2 and x[0] == "D":
        return {realize(k): realize(v) for k, v in x[1]}
    return x


def same(a, x, has):
    """a: actual value; x: expectation from Env.sym; has: the term contains a node."""
    if not has:
        return None if a is x else f"expected the very object {x!r}, got {a!r}"
    if type(x) is tuple and len(x) == 2 and x[0] in (list, tuple, set, "D"):
        typ = dict if x[0] == "D" else x[0]
        if type(a) is not typ:
            return f"expected a {typ.__name__}, got {type(a).__name__} {a!r}"
        if typ is set:
            w = realize(x)
            return None if a == w and len(a) == len(w) else f"expected {w!r}, got {a!r}"
        if typ is dict:
            want = {}  # of equal keys the first one stays, with the last value
            for k, v in x[1]:
                want[realize(k)] = want.get(realize(k), (k,))[0], v
            if len(a) != len(want):
                return f"expected keys {list(want)!r}, got {list(a)!r}"
            for (ka, va), (k, v) in zip(a.items(), want.values()):
                m = same_any(ka, k) or same_any(va, v)
                if m:
                    return m
            return None
        if len(a) != len(x[1]):
            return f"expected {len(x[1])} items, got {a!r}"
        for c, e in zip(a, x[1]):
            m = same_any(c, e)
            if m:
                return m
        return None
    return None if a is x else f"expected the object {x!r}, got {a!r}"


def id_or_val(k):
    return k if type(k) is tuple else id(k)


def same_any(a, e):
    structured = type(e) is tuple and len(e) == 2 and (e[0] in (list, tuple, set) or e[0] == "D")
    return same(a, e, structured) if structured else (None if a is e else f"expected the object {e!r}, got {a!r}")


class Obj:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


# ------------------------------------------------------------------------------------------------ tasks
def run_terms(r, ts, scheduler, W, equal):
    """Every term as positional argument, keyword argument, gathered value and output."""
    import uberjob

    va, vb = Obj("a"), Obj("b")
    if equal:
        va, vb = (1, 2), tuple([1, 2])
    lv, lm = Obj("lit"), (va if equal else Obj("lit2"))
    plan = uberjob.Plan()
    nodes = {"A": plan.call(lambda: va), "B": plan.call(lambda: vb), "L": plan.lit(lv), "M": plan.lit(lm)}
    env = Env(nodes, {"A": va, "B": vb, "L": lv, "M": lm}, {"C": Obj("c"), "D": Obj("d")})
    got = {}
    outs = []
    exp = []

    def rec(i):
        def f(x, *, k):
            got[i] = (x, k)
            return None
        return f

    for i, t in enumerate(ts):
        sv, ev, has = env.sym(t)
        exp.append((sv, ev, has))
        outs.append(plan.call(rec(i), sv, k=sv))
        g = plan.gather(sv)
        outs.append(g)
        outs.append(sv)
        if isinstance(sv, (list, tuple)) and type(sv) in (list, tuple):
            outs.append(list(plan.unpack(sv, len(sv))))
        else:
            outs.append(None)

    def go():
        return uberjob.run(plan, output=outs, max_workers=W, scheduler=scheduler, progress=None)

    res, err, s = H.solo(go)
    r.n["executions"] += 1
    r.n["programs"] += 4 * len(ts)
    r.n["steps"] += s.steps
    if err is not None or s.deadlock:
        return None if len(ts) == 1 and _unhashable(exp[0][1]) else (ts, f"run raised {err!r} / deadlock={s.deadlock}; cause {getattr(err, '__cause__', None)!r}")
    if type(res) is not list or len(res) != len(outs):
        return ts, f"output has the wrong shape: {type(res)}"
    for i, t in enumerate(ts):
        sv, ev, has = exp[i]
        vals = [("positional argument", got[i][0]), ("keyword argument", got[i][1]), ("gather", res[4 * i + 1]), ("output", res[4 * i + 2])]
        for what, a in vals:
            m = same(a, ev, has) if has else (None if a is sv else f"expected the very object {sv!r}, got {a!r}")
            if m:
                return [t], f"{what} {t!r}: {m}"
        if res[4 * i + 3] is not None:
            u = res[4 * i + 3]
            want = ev[1] if has else tuple(sv)
            if len(u) != len(want):
                return [t], f"unpack of {t!r} gave {len(u)} items"
            for a, e in zip(u, want):
                m = same_any(a, e)
                if m:
                    return [t], f"unpack of {t!r}: {m}"
        r.seen(t)
    return None


def _unhashable(x):
    return False


SPECIAL_NAMES = (
    "self", "fn", "args", "kwargs", "stack_frame", "retry", "node", "plan", "name", "index", "value", "scope", "call", "graph",
    "exception", "cls", "result", "a b", "é", "", "0", "lambda", "x.y", "output", "registry", "function", "func", "item", "root",
)


def sig_cases():
    """Argument lists: every mix of node/literal sources for up to 3 positional and 2 keyword arguments; long lists; odd names."""
    for p in range(4):
        for k in range(3):
            for src in itertools.product("ABC", repeat=p + k):
                yield ("mix", src[:p], tuple((f"k{i}", s) for i, s in enumerate(src[p:])))
    for p in (9, 10, 11, 12, 13, 25, 101, 300):
        yield ("long", tuple("ABC"[(i * i) % 3] for i in range(p)), ())
        yield ("distinct", p, 0)
        yield ("distinct", 0, p)
        yield ("distinct", p, p)
    for n in SPECIAL_NAMES:
        yield ("mix", ("A",), ((n, "B"),))
        yield ("mix", (), ((n, "C"),))
        yield ("mix", ("A", "C"), ((n, "B"), ("zz", "A"), ("aa", "A")))
    for a, b in itertools.permutations(SPECIAL_NAMES[:10], 2):
        yield ("mix", ("B",), ((a, "A"), (b, "B")))


def run_sigs(r, cs, scheduler, W):
    import uberjob

    for c in cs:
        va, vb, vc = Obj("a"), Obj("b"), Obj("c")
        plan = uberjob.Plan()
        nodes = {"A": plan.call(lambda: va), "B": plan.call(lambda: vb), "C": vc}
        vals = {"A": va, "B": vb, "C": vc}
        got = []

        def f(*a, **k):
            got.append((a, tuple(k.items())))
            return va

        if c[0] == "distinct":
            _, p, k = c
            objs = [Obj(i) for i in range(p + k)]
            ns = [plan.call(lambda o=o: o) if i % 2 else o for i, o in enumerate(objs)]
            names = [f"n{(i * 7) % max(k, 1)}_{i}" for i in range(k)]
            args, kwargs = ns[:p], dict(zip(names, ns[p:]))
            ea, ek = tuple(objs[:p]), tuple(zip(names, objs[p:]))
        else:
            args = [nodes[x] for x in c[1]]
            kwargs = {n: nodes[x] for n, x in c[2]}
            ea, ek = tuple(vals[x] for x in c[1]), tuple((n, vals[x]) for n, x in c[2])
        r.n["programs"] += 1
        r.seen(c)
        try:
            out = plan.call(f, *args, **kwargs)
            for x in args:
                if isinstance(x, uberjob.graph.Node):  # a plain dependency next to the argument edges
                    plan.add_dependency(x, out)
            res, err, s = H.solo(lambda: uberjob.run(plan, output=out, max_workers=W, scheduler=scheduler, progress=None))
            r.n["executions"] += 1
            r.n["steps"] += s.steps
        except Exception as e:
            return c, f"building raised {e!r}"
        if err is not None:
            return c, f"run raised {err!r} from {err.__cause__!r}"
        if res is not va or len(got) != 1:
            return c, f"returned {res!r} after {len(got)} calls"
        a, k = got[0]
        if len(a) != len(ea) or any(x is not y for x, y in zip(a, ea)):
            return c, f"positional arguments {a!r}, expected {ea!r}"
        if [n for n, _ in k] != [n for n, _ in ek] or any(x[1] is not y[1] for x, y in zip(k, ek)):
            return c, f"keyword arguments {k!r}, expected {ek!r}"
    return None


class WeirdEq:
    def __eq__(self, other):
        raise RuntimeError("eq")

    __hash__ = object.__hash__

    def __bool__(self):
        raise RuntimeError("bool")


class NoEq:
    __hash__ = None

    def __eq__(self, other):
        return NotImplemented


class AllEq:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0

    def __bool__(self):
        return False


def odd_values():
    import uberjob

    g = (i for i in range(3))
    return [None, False, True, 0, 0.0, float("nan"), "", b"", Ellipsis, NotImplemented, WeirdEq(), NoEq(), AllEq(), g, object,
            uberjob.graph.Node, uberjob.Plan(), uberjob.Registry(), ValueError("x"), KeyboardInterrupt, [], {}, set(), (), lambda: 1,
            [1, [2]], {"a": []}, frozenset(), collections.OrderedDict(), range(3), iter([1]), type("T", (list,), {})([1]),
            uberjob.graph.Literal(5), uberjob._util.Slot(3) if hasattr(uberjob._util, "Slot") else 0, map(str, [1]), memoryview(b"a"),
            collections.Counter("ab"), bytearray(b"x"), 10**30, 1j]


def run_values(r, scheduler, W):
    """Odd values as call results, literals and arguments: passed by identity, never compared, truth-tested or iterated."""
    import uberjob

    for i, v in enumerate(odd_values()):
        for how in ("result", "literal", "arg", "nested", "output"):
            plan = uberjob.Plan()
            got = []

            def f(*a, **k):
                got.append((a, k))
                return v

            is_node = isinstance(v, uberjob.graph.Node)
            if is_node and how != "result":
                continue
            r.n["programs"] += 1
            try:
                if how == "result":
                    x = plan.call(f)
                    y = plan.call(f, x, k=x)
                    out = [x, y]
                elif how == "literal":
                    x = plan.lit(v)
                    y = plan.call(f, x, k=x)
                    out = [x, y]
                elif how == "arg":
                    y = plan.call(f, v, k=v)
                    out = [y, y]
                elif how == "nested":
                    x = plan.call(lambda: v)
                    y = plan.call(f, [x], k=(x,))
                    out = [x, y]
                else:
                    got.append(None)
                    z = plan.call(lambda: 1)
                    out = [v, v, z]
                res, err, s = H.solo(lambda: uberjob.run(plan, output=out, max_workers=W, scheduler=scheduler, progress=None))
                r.n["executions"] += 1
                r.n["steps"] += s.steps
            except Exception as e:
                return (i, how), f"building with {type(v)} as {how} raised {e!r}"
            if err is not None:
                return (i, how), f"value of {type(v)} as {how}: run raised {err!r} from {err.__cause__!r}"
            if res[0] is not v or res[1] is not v:
                return (i, how), f"value of {type(v)} as {how}: returned {res!r}"
            if how != "output":
                a, k = got[-1]
                ga, gk = a[0], k["k"]
                if how == "nested":
                    if type(ga) is not list or type(gk) is not tuple or len(ga) != 1 or len(gk) != 1:
                        return (i, how), f"nested argument {type(ga)} {type(gk)}"
                    ga, gk = ga[0], gk[0]
                if ga is not v or gk is not v:
                    return (i, how), f"value of {type(v)} as {how}: the call received {type(ga)} {type(gk)}"
            r.seen((i, how))
    return None


def run_unpack(r, scheduler, W):
    import uberjob

    def gen(n):
        for i in range(n):
            yield objs[i]

    objs = [Obj(i) for i in range(16)]
    makers = {
        "list": lambda n: objs[:n], "tuple": lambda n: tuple(objs[:n]), "gen": gen, "iter": lambda n: iter(objs[:n]),
        "dict": lambda n: {o: 1 for o in objs[:n]}, "map": lambda n: map(lambda x: x, objs[:n]),
        "inf": lambda n: itertools.chain(objs[:n]), "deque": lambda n: collections.deque(objs[:n]),
    }
    for name, mk in makers.items():
        for n in range(13):
            for length in {0, 1, n - 1, n, n + 1, 12}:
                if length < 0:
                    continue
                for lit in (False, True):
                    if lit and name in ("gen", "iter", "map", "inf") and False:
                        continue
                    plan = uberjob.Plan()
                    x = plan.lit(mk(n)) if lit else plan.call(mk, n)
                    items = plan.unpack(x, length)
                    r.n["programs"] += 1
                    key = (name, n, length, lit)
                    if type(items) is not tuple or len(items) != length:
                        return key, f"unpack returned {items!r}"
                    res, err, s = H.solo(lambda: uberjob.run(plan, output=list(items)[::-1], max_workers=W, scheduler=scheduler, progress=None))
                    r.n["executions"] += 1
                    r.n["steps"] += s.steps
                    if length == 0:
                        if err is not None or res != []:
                            return key, f"got {res!r} {err!r}"
                        continue
                    if length != n:
                        if err is None:
                            return key, f"unpacking {n} items into {length} gave {res!r}"
                        if not isinstance(err.__cause__, ValueError):
                            return key, f"unpacking {n} items into {length} raised {err!r} from {err.__cause__!r}"
                        continue
                    if err is not None or len(res) != n or any(a is not b for a, b in zip(res, objs[:n][::-1])):
                        return key, f"unpack gave {res!r} {err!r} {getattr(err, '__cause__', None)!r}"
                    r.seen(key)
    return None


def run_callables(r, scheduler, W):
    """Different kinds of callables get exactly the arguments given."""
    import functools
    import operator

    import uberjob

    class K:
        def __init__(self, a, b=2):
            self.a, self.b = a, b

        def m(self, x, *, y=0):
            return (self, x, y)

        @classmethod
        def c(cls, x):
            return (cls, x)

        @staticmethod
        def s(x):
            return ("s", x)

        def __call__(self, *a, **k):
            return (self.a, a, k)

    k = K(1)

    def defaults(a, b=5, *rest, c=6, **more):
        return (a, b, rest, c, more)

    def posonly(a, b, /, c=3, **kw):
        return (a, b, c, kw)

    def positional_self(self, fn, stack_frame):
        return (self, fn, stack_frame)

    tests = [
        (int, ("12",), {}), (int, ("z1",), {"base": 36}), (max, (1, 5, 3), {}), (max, ([1, 2],), {"key": None}), (operator.add, (2, 3), {}),
        (dict, (), {"a": 1, "b": 2}), (dict, ([("a", 1)],), {"b": 2}), (print, (), {"end": ""}), (k.m, (1,), {"y": 2}), (K.c, (5,), {}),
        (K.s, (5,), {}), (k, (1, 2), {"z": 3}), (defaults, (1,), {}), (defaults, (1, 2, 3, 4), {"c": 7, "d": 8}), (posonly, (1, 2), {"a": 5, "b": 6}),
        (functools.partial(defaults, 1, c=9), (2,), {"e": 1}), (lambda *a: a, (1, 2), {}), (str.join, (",", ["a", "b"]), {}),
        (positional_self, (), {"stack_frame": 1, "fn": 2, "self": 3}), (defaults, (), {"a": 1, "fn": 2, "self": 4, "args": 5, "kwargs": 6}),
        (getattr, (k, "zzz", 7), {}), (type, ("N", (), {}), {}), (sorted, ([3, 1],), {"reverse": True}), (list, ((1, 2),), {}), (tuple, (), {}),
        (set, ([1],), {}), (operator.itemgetter(1), ([1, 2],), {}), (functools.lru_cache(defaults), (1,), {}), (id, (k,), {}), (zip, (), {}),
    ]
    for i, (fn, a, kw) in enumerate(tests):
        for wrap in (False, True):
            plan = uberjob.Plan()
            w = (lambda v: plan.call(lambda: v)) if wrap else (lambda v: v)
            try:
                node = plan.call(fn, *map(w, a), **{n: w(v) for n, v in kw.items()})
            except Exception as e:
                return (i, wrap), f"plan.call({fn!r}, *{a!r}, **{kw!r}) raised {e!r}"
            res, err, s = H.solo(lambda: uberjob.run(plan, output=node, max_workers=W, scheduler=scheduler, progress=None))
            r.n["executions"] += 1
            r.n["programs"] += 1
            r.n["steps"] += s.steps
            want = fn(*a, **kw)
            if err is not None or (res != want and not isinstance(want, (type, zip))) or type(res) is not type(want):
                return (i, wrap), f"{fn!r}(*{a!r}, **{kw!r}) gave {res!r} {err!r}; expected {want!r}"
            r.seen((i, wrap))
    return None


def equal_groups():
    import decimal
    import enum
    import fractions

    class E(enum.IntEnum):
        ONE = 1

    class S(str):
        pass

    class I(int):
        pass

    class Tagged(str):
        __slots__ = ()

    NTI = collections.namedtuple("NTI", "a b")
    return [
        [0, False, 0.0, -0.0, 0j, -0j, decimal.Decimal(0), decimal.Decimal("0.00"), fractions.Fraction(0), I(0)],
        [1, True, 1.0, 1 + 0j, decimal.Decimal(1), fractions.Fraction(1), E.ONE, I(1)],
        ["ab", "".join(["a", "b"]), S("ab"), Tagged("ab")],
        [b"ab", bytes(bytearray(b"ab")), bytearray(b"ab"), memoryview(b"ab")],
        [(1, 2), (1.0, 2), (True, 2), NTI(1, 2), tuple([1, 2]), TSub((1, 2))],
        [[1], [1], [True], LSub([1])],
        [{"a": 1}, {"a": 1.0}, {"a": True}, collections.OrderedDict(a=1), DSub(a=1)],
        [{1}, {True}, {1.0}, frozenset({1}), frozenset({True}), SSub({1})],
        [10**20, int("1" + "0" * 20), 1e20],
        [float("nan"), float("nan"), decimal.Decimal("nan")],
        [range(0), range(0, 0, 2), ()],
    ]


def run_equal(r, scheduler, W):
    """Equal values that are different objects, in every pair of places of one plan: each arrives as itself."""
    import uberjob

    def places(plan, a, b, f):
        """(symbolic output, extractor of the two values)"""
        lit = plan.lit
        yield plan.call(f, a, b), lambda o: o[0]
        yield plan.call(f, x=a, y=b), lambda o: tuple(o[1].values())
        yield plan.call(f, a, y=b), lambda o: (o[0][0], o[1]["y"])
        yield plan.call(f, 7, a, 7, b, 7, z=a, y=b), lambda o: (o[0][1], o[0][3]) if same2(o[1].values(), (a, b)) else ()
        yield plan.call(f, lit(a), lit(b)), lambda o: o[0]
        yield plan.call(f, lit(a), b), lambda o: o[0]
        yield plan.call(f, plan.call(lambda: a), b, y=plan.call(lambda: a), z=b), lambda o: o[0] if same2(o[1].values(), (a, b)) else ()
        yield plan.call(f, plan.call(lambda: a), plan.call(lambda: b)), lambda o: o[0]
        n = plan.call(lambda: 7)
        yield plan.call(f, [n, a, b]), lambda o: o[0][0][1:]
        yield plan.call(f, (a, n), b), lambda o: (o[0][0][0], o[0][1])
        yield plan.call(f, {1: a, 2: n, 3: b}), lambda o: (o[0][0][1], o[0][0][3])
        yield plan.call(f, [n, [a]], [n, [b]]), lambda o: (o[0][0][1][0], o[0][1][1][0])
        yield [plan.call(f, a), plan.call(f, b)], lambda o: (o[0][0][0], o[1][0][0])
        yield [a, n, b], lambda o: (o[0], o[2])
        yield [lit(a), n, lit(b)], lambda o: (o[0], o[2])
        yield [plan.gather([a, n]), plan.gather([b, n])], lambda o: (o[0][0], o[1][0])
        yield list(plan.unpack([a, b], 2)), lambda o: o
        yield list(plan.unpack(plan.call(lambda: (a, b)), 2)), lambda o: o
        with plan.scope(a) if _hashable(a) else plan.scope():
            c = plan.call(f, a)
        with plan.scope(b) if _hashable(b) else plan.scope():
            d = plan.call(f, b)
        yield [c, d], lambda o: (o[0][0][0], o[1][0][0])

    def f(*a, **k):
        return a, k

    groups = equal_groups()
    cross = [[g[0] for g in groups]]
    for gi, g in enumerate(groups + cross):
        plan = uberjob.Plan()
        outs, ex = [], []
        for (i, a), (j, b) in itertools.permutations(enumerate(g), 2):
            for pi, (o, get) in enumerate(places(plan, a, b, f)):
                outs.append(o)
                ex.append((i, j, pi, a, b, get))
        for rep in range(2):
            res, err, s = H.solo(lambda: uberjob.run(plan, output=outs, max_workers=W, scheduler=scheduler, progress=None))
            r.n["executions"] += 1
            r.n["steps"] += s.steps
            if err is not None:
                return (gi, rep), f"run raised {err!r} from {err.__cause__!r}"
            for (i, j, pi, a, b, get), o in zip(ex, res):
                r.n["programs"] += 1
                got = tuple(get(o))
                if not same2(got, (a, b)):
                    return (gi, i, j, pi), f"equal values {a!r} ({type(a).__name__}) and {b!r} ({type(b).__name__}) arrived as {got!r}"
                r.seen(("equal", gi, i, j, pi))
    return None


def same2(xs, ys):
    xs = tuple(xs)
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def _hashable(x):
    try:
        hash(x)
        return True
    except (TypeError, ValueError):
        return False


# ------------------------------------------------------------------------------------------------ schedules
def oracle(case, s):
    if s is not None and (s.deadlock or s.livelock):
        return "run does not return"
    if case.error is not None:
        return f"no call fails but run raised {case.error!r} from {case.error.__cause__!r}"
    if not case.fails:
        want = plans.out_value(case.spec, case.out)
        if case.result != want or type(case.result) is not type(want):
            return f"returned {case.result!r}, direct evaluation gives {want!r}"
    return None


FNS = {"equal": run_equal, "unpack": run_unpack, "values": run_values, "callables": run_callables}


def run_task(task):
    kind = task[0].split("-")[0]
    if kind in ("terms", "eqterms"):
        r = Res()
        _, ts, scheduler, W = task
        for i in range(0, len(ts), 12):
            part = list(ts[i:i + 12])
            bad = run_terms(r, part, scheduler, W, kind == "eqterms")
            if bad:
                r.violation(f"{bad[1]}", key=str(bad[1])[:300], kind=kind, terms=repr(bad[0]), scheduler=scheduler, W=W)
                break
        r.sample({"term": repr(ts[len(ts) // 2])})
        return r
    if kind in ("sigs", *FNS):
        r = Res()
        bad = run_sigs(r, task[1], task[2], task[3]) if kind == "sigs" else FNS[kind](r, task[2], task[3])
        if bad:
            r.violation(f"{kind} {bad[0]!r}: {bad[1]}", key=f"{kind} {bad[0]!r}"[:300], kind=kind, case=repr(bad[0]), scheduler=task[2], W=task[3])
        return r
    return H.run_cases(task, oracle)


def replay(r, v):
    import ast

    d = v["data"]
    if d.get("kind") in ("terms", "eqterms"):
        r.absorb(run_task((d["kind"], ast.literal_eval(d["terms"]), d["scheduler"], d["W"])))
    elif d.get("kind") == "sigs":
        r.absorb(run_task(("sigs", [ast.literal_eval(d["case"])], d["scheduler"], d["W"])))
    elif d.get("kind"):
        r.absorb(run_task((d["kind"], None, d["scheduler"], d["W"])))
    else:
        H.replay_case(r, v, oracle)


def tasks(tier, seed):
    quick = tier == "quick"
    T = []
    variants = [(None, 1), ("random", 2)] if quick else [(sc, W) for sc in (None, "default", "random") for W in (1, 2, 4)]
    t1, t2, t3 = terms(1), terms(2, 1 if quick else 2), terms(3)
    if quick:
        t2 = t2 + terms(2, 2)[seed % 10::10]
        t3 = t3[seed % 3::3]
    lits = [subst(t, {"A": "L", "B": "M"}) for t in t1 + t2[seed % 4 if quick else 0::4 if quick else 1]]
    for n in (3, 4):  # dicts of which some keys become equal
        vals = ("C", "L", "B", "D")
        lits += [("dict", *zip(ks, vs)) for ks in itertools.permutations(("A", "B", "M", "C", "L", ("tuple", "A"), ("tuple", "B")), n)
                 for vs in (vals[:n], vals[::-1][:n])][:: 1 if n == 3 else 3]
    lits += [subst(t, {"B": "L"}) for t in t1 + t2[seed % 4 if quick else 0::4 if quick else 1]]
    for sc, W in variants:
        for k in ("terms", "eqterms"):
            for lab, ts in (("1", t1), ("2", t2), ("3", t3), ("l", lits)):
                for i in range(0, len(ts), 600):
                    T.append((f"{k}-{lab}-{i}", tuple(ts[i:i + 600]), sc, W))
        cs = list(sig_cases())
        for i in range(0, len(cs), 120):
            T.append((f"sigs-{i}", tuple(cs[i:i + 120]), sc, W))
        for k in FNS:
            T.append((k, None, sc, W))
    T += H.chunk(shape_cases(SMALL + MID, Ws=(2,), scheds=(None,)), (H.B(1, 0, ops="exec", cap=3000),), 1, "op1-")
    T += H.chunk(shape_cases(SMALL), (H.B(1, None, cap=2000), H.B(2, 0, cap=1500 if quick else 60000)), 2, "small-")
    T += H.chunk(shape_cases(MID), (H.B(1, 1, cap=3000 if quick else 60000),), 1, "mid-")
    for order in (1, 2):
        T += H.chunk(shape_cases(MID + SMALL, Ws=(2,), order=order, dep_rev=True), (H.B(1, 0),), 4, f"order{order}-")
    specs3 = [s for n in (1, 2, 3) for s in plans.enum_specs(n, ("", "a", "k", "d", "ad", "aa", "ak", "kk"))]
    T += H.chunk((H.kwt(spec=s, W=2, scheduler=sc, out=o) for j, s in enumerate(specs3) for sc in (SCHEDS if not quick else SCHEDS[j % 2:j % 2 + 1])
                  for o in (plans.all_outputs(s, rich=True) if not quick or j % 3 == seed % 3 else plans.all_outputs(s)[:1])),
                 (H.B(1, 0, r=0, cap=200),), 60, "n3-")
    specs4 = specs(4, ("", "a", "k"))
    T += H.chunk((H.kwt(spec=s, W=2, scheduler=SCHEDS[i % 2]) for i, s in enumerate(specs4)), (H.B(0, 0 if quick else None),), 200, "n4-")
    T += H.chunk((H.kwt(spec=s, W=W, scheduler=sc) for s in big_specs() for W in (1, 3, None) for sc in SCHEDS),
                 (H.B(1, 0, p=0, b=1, r=0, cap=20),), 2, "big-")
    if not quick:
        T += H.chunk((H.kwt(spec=s, W=3, scheduler=sc) for s in specs3 for sc in SCHEDS), (H.B(1, 1), H.B(2, 0, cap=500)), 6, "n3t-")
        T += H.chunk(shape_cases(SMALL, Ws=(2, 3)), (H.B(1, 1, ops="all", cap=60000),), 1, "opt-")
    return T


def coverage(total, tier=None):
    c = H.coverage(total)
    c["programs_enumerated"] = total.n.get("programs", 0)
    return c


def free(r, tier, seed):
    cs = list(shape_cases(SMALL + MID, Ws=(1, 2, 3)))
    return H.free_traces(r, oracle, cs, reps=2 if tier == "quick" else 20)
