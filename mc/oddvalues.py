"""Scope values: anything hashable and equatable."""
import sys

from mc import boot


def catalog():
    import collections as co
    import dataclasses
    import datetime as dt
    import decimal
    import enum
    import fractions
    import pathlib
    import uuid

    class Plain:
        pass

    class Color(enum.Enum):
        RED = 1
        BLUE = 2

    @dataclasses.dataclass(frozen=True)
    class DC:
        x: object

    class LtRaises:
        def __lt__(self, o):
            raise ValueError("no order")

        __gt__ = __lt__

    class Ambiguous:
        def __bool__(self):
            raise ValueError("truth value is ambiguous")

    class LtOdd:
        def __lt__(self, o):
            return Ambiguous()

        __gt__ = __lt__

    class NoStr:
        def __str__(self):
            raise RuntimeError("no str")

    class NoRepr:
        def __repr__(self):
            raise RuntimeError("no repr")

        __str__ = __repr__

    class OddStr:
        def __str__(self):
            return 7

    class SubStr(str):
        def __str__(self):
            return "sub" + str.__str__(self)

    class Meta(type):
        def __repr__(cls):
            raise RuntimeError("no repr of the type")

    def twin(n):
        class Twin:
            def __init__(self):
                self.n = n

        return Twin

    NT = co.namedtuple("NT", "a b")
    utc = dt.timezone.utc
    return {
        "str": ["b", "a", "a.b", ""],
        "int": [3, 1, -2, 10**30],
        "hugeint": [10**5000, 1, 10**5001],
        "mixed": [1, "a", None, 2.5, (1, "x"), b"b"],
        "none": [None, None, 0],
        "bools": [True, False, 2, "True"],
        "objects": [Plain(), Plain(), Plain()],
        "enum": [Color.RED, Color.BLUE],
        "classes": [int, str, Plain],
        "functions": [len, boot.boot, lambda: 0],
        "complex": [1j, 2j, 1 + 1j],
        "frozenset": [frozenset([1, "a"]), frozenset([2]), frozenset()],
        "tuple": [(1, None), (1, "a"), (1, 2), (None, 1)],
        "nested": [((1j,),), ((2j,),), (("a",),)],
        "dates": [dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, tzinfo=utc), dt.date(2020, 1, 1)],
        "nan": [float("nan"), float("inf"), 1.0, float("nan")],
        "decimal": [decimal.Decimal("NaN"), decimal.Decimal(1), decimal.Decimal("Infinity")],
        "fraction": [fractions.Fraction(1, 3), fractions.Fraction(1, 2)],
        "dataclass": [DC(1), DC("a"), DC(None)],
        "namedtuple": [NT(1, "a"), NT("a", 1)],
        "ltraises": [LtRaises(), LtRaises()],
        "ltodd": [LtOdd(), LtOdd()],
        "nostr": [NoStr(), NoStr(), "x"],
        "norepr": [NoRepr(), 5],
        "oddstr": [OddStr(), OddStr()],
        "substr": [SubStr("x"), "x", SubStr("a")],
        "twins": [twin(1)(), twin(2)(), twin(1)()],
        "meta": [Meta("M", (), {})(), 1, Meta("M", (), {})()],
        "named": [type(n, (), {})() for n in ("array", "deque", "int", "dict", "str")],
        "surrogate": ["\ud800", "a\udfff.b", "ok"],
        "unicode": ["é", "日本", "\U0001f600", "\u200b", "ß.ß"],
        "control": ["a\nb", "a\tb\r\n", "\x00", "\x1b[31m", "| 5s |"],
        "markup": ["<script>", "</td></tr>", "&amp;", "\"'", "]]>"],
        "format": ["{}", "%s", "{0.x}", "%(a)s", "\\"],
        "long": ["x" * 3000, "y" * 3001],
        "path": [pathlib.Path("/a.b/c"), pathlib.PurePosixPath("x")],
        "uuid": [uuid.UUID(int=1), uuid.UUID(int=0)],
        "bytes": [b"\xff", b"a", bytes(3)],
        "range": [range(3), range(2), slice(1, 2) if sys.version_info >= (3, 12) else 0],
        "types": [type(None), None, NotImplemented, Ellipsis],
    }
