"""Exceptions of every kind a call may raise: one letter each (see harness.Case.make_exc)."""


class NoneEq(Exception):
    """Compares and tests truth in every unhelpful way."""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __bool__(self):
        raise RuntimeError("bool")


class Strange(Exception):
    """Cannot be shown, copied or rebuilt; carries attributes that the engine uses on its own exceptions."""

    def __init__(self, a, b, *, c):
        super().__init__(a, b, c)
        self.node = self.call = self.fn = None

    def __str__(self):
        raise RuntimeError("str")

    __repr__ = __str__

    def __reduce__(self):
        raise RuntimeError("reduce")


class Proxy(Exception):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self


def make_fn():
    return 1


def make(kind, case, i, a):
    import asyncio
    import concurrent.futures
    import queue
    import threading

    import uberjob
    from uberjob._errors import NodeError, NotTransformedError

    if kind in "cC":
        # as raised by a call that runs a plan itself (C: another plan; c: this very plan)
        other = uberjob.Plan().call(make_fn) if kind == "C" else case.nodes[[j for j, k in enumerate(case.kinds) if k in "cs"][0]]
        e = uberjob.CallError(other)
        inner = KeyError("inner")
        inner.__cause__ = NodeError(other)
        inner.__cause__.__cause__ = ValueError("innermost")
        e.__cause__ = inner
        return e
    if kind == "n":
        e = NodeError(case.nodes[i])
        e.__cause__ = ValueError("inner")
        return e
    if kind == "o":
        return NodeError(uberjob.Plan().call(make_fn))
    if kind == "x":
        e = ValueError(i)
        e.__context__ = KeyError("context")
        e.__suppress_context__ = True
        e.add_note("note")
        return e
    if kind == "z":
        e = ValueError(i)
        e.__cause__ = e  # a cycle
        return e
    if kind == "h":
        # already raised and caught once: has a traceback and a chain of its own
        try:
            try:
                raise KeyError(1)
            except KeyError as k:
                raise LookupError(2) from k
        except LookupError as e:
            return e
    simple = {
        "G": lambda: ExceptionGroup("g", [ValueError(1), KeyError(2)]),
        "g": lambda: BaseExceptionGroup("g", [KeyboardInterrupt(), ValueError(1)]),
        "H": lambda: ExceptionGroup("one", [ValueError(1)]),
        "F": lambda: ExceptionGroup("outer", [ExceptionGroup("inner", [uberjob.CallError(uberjob.Plan().call(make_fn))])]),
        "D": lambda: BaseExceptionGroup("one", [GeneratorExit()]),
        "J": lambda: GeneratorExit(i),
        "A": lambda: asyncio.CancelledError(),
        "f": lambda: concurrent.futures.CancelledError(),
        "L": lambda: queue.Empty(),
        "l": lambda: queue.Full(),
        "b": lambda: threading.BrokenBarrierError(),
        "T": lambda: TimeoutError(i),
        "R": lambda: RecursionError("deep"),
        "a": lambda: AssertionError(),
        "k": lambda: KeyError(i),
        "t": lambda: TypeError("f() takes 0 positional arguments but 1 was given"),
        "u": lambda: AttributeError("x"),
        "v": lambda: RuntimeError("can't start new thread"),
        "w": lambda: NotTransformedError(),
        "y": lambda: StopAsyncIteration(),
        "O": lambda: FileNotFoundError(2, "none", "x"),
        "i": lambda: ImportError("x"),
        "W": lambda: UserWarning("x"),
        "s": lambda: SyntaxError("bad", ("f", 1, 1, "x")),
        "q": lambda: NoneEq(i),
        "Q": lambda: Strange(1, 2, c=3),
        "p": lambda: Proxy(i),
        "U": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
        "e": lambda: Exception(),
        "2": lambda: NotImplementedError(i),
        "3": lambda: NotImplementedError(),
        "4": lambda: OverflowError(i),
        "5": lambda: ZeroDivisionError(),
        "6": lambda: IndexError(i),
        "7": lambda: StopIteration(i),
        "8": lambda: MemoryError(),
        "9": lambda: EOFError(),
        "B": lambda: BrokenPipeError(32, "pipe"),
        "P": lambda: PermissionError(13, "no", "x"),
        "I": lambda: InterruptedError(4, "int"),
        "N": lambda: NameError("x"),
        "V": lambda: ValueError(),
        "d": lambda: DeprecationWarning("x"),
        "j": lambda: __import__("json").JSONDecodeError("x", "doc", 0),
        "m": lambda: __import__("subprocess").CalledProcessError(1, "cmd"),
        "r": lambda: ReferenceError("x"),
        "X": lambda: __import__("pickle").PicklingError("x"),
        "Z": lambda: __import__("copy").Error("x"),
        "0": lambda: BaseException(),
        "1": lambda: type("Uncaught", (BaseException,), {"__module__": None})(),
    }
    return simple[kind]()


KINDS = "cCnoxzhGgHFDJAfLlbTRaktuvwyOiWsqQpUe0123456789djmrXZ"
EXCEPTIONS = "cCnoxzhGHFfLlbTRaktuvwyOiWsqQpUe23456789BPINVdjmrXZ"  # every kind derived from Exception
