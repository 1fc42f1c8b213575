"""Objects of every way of being picklable, at module level so that they can be found again."""
import array
import collections
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import functools
import operator
import re
import types
import uuid
import zoneinfo


class Slots:
    __slots__ = ("x", "y")

    def __init__(self, *a):
        for n, v in zip(self.__slots__, a):
            setattr(self, n, v)

    def __eq__(self, o):
        return type(o) is type(self) and all(getattr(self, n, None) == getattr(o, n, None) for n in ("x", "y"))

    __hash__ = None


class SlotsDict(Slots):
    """Slots and a __dict__."""

    def __eq__(self, o):
        return super().__eq__(o) and vars(self) == vars(o)


class SlotsState(Slots):
    __slots__ = ("z",)

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __getstate__(self):
        return {"s": [self.x, self.y]}

    def __setstate__(self, s):
        self.x, self.y = s["s"]


class NewArgs:
    def __new__(cls, a):
        o = super().__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        return (self.a,)

    def __eq__(self, o):
        return type(o) is NewArgs and o.a == self.a

    __hash__ = None


class NewArgsEx(NewArgs):
    def __new__(cls, *, a):
        return NewArgs.__new__(cls, a)

    def __getnewargs_ex__(self):
        return (), {"a": self.a}

    def __eq__(self, o):
        return type(o) is NewArgsEx and o.a == self.a


class Reduce:
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return Reduce, (self.a,), {"more": 1}

    def __eq__(self, o):
        return type(o) is Reduce and o.a == self.a

    __hash__ = None


class ReduceEx(Reduce):
    def __reduce_ex__(self, protocol):
        return ReduceEx, (self.a,)

    def __eq__(self, o):
        return type(o) is ReduceEx and o.a == self.a


class ReduceItems:
    """Rebuilt through append and item assignment."""

    def __init__(self):
        self.items, self.map = [], {}

    def append(self, x):
        self.items.append(x)

    def extend(self, xs):
        self.items.extend(xs)

    def __setitem__(self, k, v):
        self.map[k] = v

    def __reduce__(self):
        return ReduceItems, (), None, iter(self.items), iter(self.map.items())

    def __eq__(self, o):
        return type(o) is ReduceItems and (o.items, o.map) == (self.items, self.map)

    __hash__ = None


class Outer:
    class Inner:
        def __init__(self, x):
            self.x = x

        def __eq__(self, o):
            return type(o) is Outer.Inner and o.x == self.x

        __hash__ = None

    class Color(enum.Enum):
        RED = 1
        BLUE = "b"

    @staticmethod
    def s():
        pass

    @classmethod
    def c(cls):
        pass


class LSub(list):
    pass


class DSub(dict):
    pass


class ISub(int):
    pass


class StrSub(str):
    pass


class TSub(tuple):
    pass


class BSub(bytes):
    pass


class SetSub(set):
    pass


class Err(Exception):
    def __init__(self, a, *, b=1):
        super().__init__(a)
        self.b = b


class Missing(dict):
    def __missing__(self, k):
        return k


NT = collections.namedtuple("NT", "a b")


@dataclasses.dataclass
class Data:
    a: object
    b: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True, slots=True)
class Frozen:
    a: object


class Flag(enum.IntFlag):
    A = 1
    B = 2


def with_attr(o):
    o.attr = ["attr"]
    return o


def slots_dict():
    class_ = SlotsDict(1, [2])
    class_.z = 3
    return class_


def items():
    r = ReduceItems()
    for i in range(2500):
        r.append(i)
    for i in range(2500):
        r[i] = str(i)
    return r


def values():
    e = Err(1)
    e.b = [2]
    loop = Data(None)
    loop.b.append(loop.b)
    yield from [
        Slots(1), Slots(1, [2]), Slots(), slots_dict(), SlotsState(1, 2), NewArgs(1), NewArgsEx(a=1), Reduce(1), ReduceEx(1), ReduceItems(), items(),
        Outer.Inner([1]), Outer.Inner, Outer.Color.RED, Outer.Color.BLUE, Outer.Color, Outer.s, Outer.c, "a".upper, [1].append, {}.get,
        with_attr(LSub([1])), with_attr(DSub(a=1)), ISub(5), StrSub("x"), TSub((1,)), BSub(b"x"), SetSub({1}), with_attr(ISub(2**40)), e, ValueError(1, "x"),
        KeyError("k"), OSError(2, "no", "f"), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), ExceptionGroup("g", [ValueError(1)]), StopIteration(3),
        Missing(a=1), NT(1, [2]), NT, Data(1), Data(Data([1]), [{}]), Frozen(1), Frozen(("a",)), Flag.A | Flag.B, Flag.A, Flag(0),
        array.array("d", [1.5]), collections.OrderedDict(b=1, a=2), collections.Counter("aab"), collections.defaultdict(list, {1: [2]}),
        collections.deque([1, 2], maxlen=3), collections.ChainMap({1: 2}, {3: 4}), types.SimpleNamespace(a=1), uuid.UUID(int=5), re.compile("a+", re.I),
        dt.date(2020, 2, 29), dt.time(1, 2, fold=1), dt.timedelta(days=-1, microseconds=1), dt.datetime(2020, 11, 1, 1, 30, fold=1),
        dt.datetime(2020, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=45), "X")), zoneinfo.ZoneInfo("UTC"),
        dt.datetime(2020, 11, 1, 1, 30, fold=1, tzinfo=zoneinfo.ZoneInfo("UTC")), decimal.Decimal("NaN").compare_total, decimal.Decimal("-0.0"),
        fractions.Fraction(-1, 3), functools.partial(max, 1, key=abs), operator.itemgetter(1, "a"), operator.attrgetter("a.b"), operator.methodcaller("x", 1, y=2),
        list[int], dict[str, list[int]], int | None, type(None), type(...), range(0, 10, 3), slice(None, None, -1),
        memoryview, __import__,
        frozenset([frozenset([1]), (2,)]), {(1, (2,)): {3}}, {None: {True: {1.5: b""}}}, -0.0, complex(-0.0, 1), 2**2040, -(2**64), 255, 256, 65535, 65536,
        -(2**31), 2**31, b"x" * 255, b"x" * 256, "é" * 256, "\ud800", "x\udcff", tuple(range(4)), [None] * 1001, dict.fromkeys(range(1001)), set(range(1001)),
        "\n", "a\nb'\\", "\\u0041", "\x00\x1a\r", b"\\n", [LSub(), LSub()],
    ]
