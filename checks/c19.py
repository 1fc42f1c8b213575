"""C19: a failure is attributed to the user line that created the failing symbolic call."""
import _thread
import re
import sys

from mc.core import R

LEVEL = "exploration"
SCHED = False
BUDGET = {"quick": 240, "thorough": 900}
TASK_LIMIT = 300.0
ASSUMPTIONS = [
    "the fixed depth limit is the creating line and three enclosing frames",
    "the expected frames come from running the same program text, from the same harness line, with recorders in place of Plan, Registry and run",
    "for a registered literal, whose creation leaves no symbolic call, the plan.lit or the registry.add line is accepted for a failed modified-time query",
    "an output specification is a gather created by the line that calls run",
    "for a call made inside transform_physical only the creating line is compared (the frames beyond it are run's own)",
]
LIMIT = 4
TRUNC = "truncated"


# ---- recorders
def caller(skip):
    f = sys._getframe(skip + 1)
    out = []
    while f is not None and len(out) < LIMIT:
        out.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno))
        f = f.f_back
    if f is not None:
        out.append(TRUNC)
    return tuple(out)


RECORD = []


class Tok:
    def __init__(self, frames, what, store=None):
        self.frames, self.what, self.store = frames, what, store
        RECORD.append(self)


class _Scope:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


class RecPlan:
    def call(self, fn, /, *a, **k):
        return Tok(caller(1), fn)

    def gather(self, v):
        return v if isinstance(v, Tok) else Tok(caller(1), "gather")

    def lit(self, v):
        return Tok(caller(1), "lit")

    def unpack(self, it, length):
        return tuple([Tok(caller(1), "unpack")] * length)

    def add_dependency(self, a, b):
        pass

    def scope(self, *a):
        return _Scope()

    def copy(self):
        return self


class RecRegistry:
    def add(self, node, store):
        return Tok(caller(1), "add", store)

    def source(self, plan, store):
        return Tok(caller(1), "source", store)

    def copy(self):
        return self


class Rec:
    Plan, Registry = RecPlan, RecRegistry

    @staticmethod
    def run(plan, **k):
        return Tok(caller(1), "run")


# ---- what the programs use
class Boom(Exception):
    pass


def boom(*a, **k):
    raise Boom("boom")


def ident(*a, **k):
    return a


def mklist():
    return [1]


def mklist3():
    return [1, 2, 3]


def inside(plan, node):
    """The call that an API call made on the way to what it returned."""
    return node if isinstance(node, Tok) else next(n for n in plan.graph.predecessors(node) if hasattr(n, "fn") and n.fn is not ident)


_stores = {}
MADE = []


def store_class():
    if not _stores:
        import datetime as dt

        import uberjob

        class St(uberjob.ValueStore):
            """Fails in the operations named in `bad`; has a modified time when `t` is given."""

            def __init__(self, bad="", t=None):
                self.bad, self.t = bad, t
                self.i = len(MADE)
                MADE.append(self)

            def read(self):
                if "r" in self.bad:
                    raise Boom("read")
                return 0

            def write(self, v):
                if "w" in self.bad:
                    raise Boom("write")

            def get_modified_time(self):
                if "m" in self.bad:
                    raise Boom("modified")
                return None if self.t is None else dt.datetime(2020, 1, 1, 0, 0, self.t)

        _stores["St"] = St
    return _stores["St"]


# kind -> (body lines; `@` marks the expression the site form wraps), tag whose frames are expected, output expression, identity tag, fn names
# Decoys (other calls on other lines) surround each failing one.
DECOY = "D = plan.call(ident)"
KINDS = {
    "call": (["T['c'] = @(plan.call(boom))"], "c", "T['c']", "c", ("boom",)),
    "call-args": (["x = plan.call(ident)", "T['c'] = @(plan.call(boom, [x], k={'y': x}))"], "c", "T['c']", "c", ("boom",)),
    "call-implicit-gather": (["x = plan.call(mklist)", "T['c'] = @(plan.call(ident, 1, {x}))"], "c", "T['c']", None, ("gather_set",)),
    "call-implicit-kw": (["x = plan.call(mklist)", "T['c'] = @(plan.call(ident, 1, k=[2, {x: 1}]))"], "c", "T['c']", None, ("gather_dict",)),
    "gather": (["x = plan.call(mklist)", "T['c'] = @(plan.gather({x}))"], "c", "T['c']", "c", ("gather_set",)),
    "gather-nested": (["x = plan.call(mklist)", "T['c'] = @(plan.gather([0, ({x},)]))"], "c", "T['c']", None, ("gather_set",)),
    "gather-dict": (["x = plan.call(mklist)", "T['c'] = @(plan.gather({x: 1}))"], "c", "T['c']", "c", ("gather_dict",)),
    "unpack": (["x = plan.call(mklist)", "T['c'] = @(plan.unpack(x, 3))[1]"], "c", "T['c']", None, ("unpack",)),
    "unpack-short": (["x = plan.call(mklist)", "T['c'] = @(plan.unpack(x, 2))[0]"], "c", "T['c']", None, ("unpack",)),
    "unpack-gather": (["x = plan.call(mklist)", "T['c'] = @(plan.unpack([0, {x}], 2))[0]"], "c", "T['c']", None, ("gather_set",)),
    "unpack-notiter": (["x = plan.lit(7)", "T['c'] = @(plan.unpack(x, 2))[0]"], "c", "T['c']", None, ("unpack",)),
    "write": (["c = plan.call(ident)", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "write-out": (["c = plan.call(ident)", "T['c'] = @(reg.add(c, St('w')))"], "c", "c", None, ("write",)),
    "readback": (["c = plan.call(ident)", "T['c'] = @(reg.add(c, St('r')))"], "c", "[c]", None, ("read",)),
    "readback-consumer": (["c = plan.call(ident)", "T['c'] = @(reg.add(c, St('r')))", "e = plan.call(ident, c)"], "c", "e", None, ("read",)),
    "read-fresh": (["c = plan.call(ident)", "T['c'] = @(reg.add(c, St('r', 5)))"], "c", "c", None, ("read",)),
    "write-second": (["c = plan.call(ident)", "reg.add(c, St())", "e = plan.call(ident, c)", "T['c'] = @(reg.add(e, St('w')))"], "c", "None", None,
                     ("write",)),
    "write-gather": (["x = plan.call(ident)", "c = plan.gather([x, 1])", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "write-piece": (["x = plan.call(mklist)", "c = plan.unpack(x, 1)[0]", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "write-lit": (["c = plan.lit(3)", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "readback-lit": (["c = plan.lit(3)", "T['c'] = @(reg.add(c, St('r')))"], "c", "c", None, ("read",)),
    "source-read": (["T['c'] = @(reg.source(plan, St('r', 5)))"], "c", "T['c']", None, ("read",)),
    "source-read-consumer": (["T['c'] = @(reg.source(plan, St('r', 5)))", "e = plan.call(ident, T['c'])"], "c", "e", None, ("read",)),
    "source-missing-read": (["T['c'] = @(reg.source(plan, St('r')))"], "c", "T['c']", None, ("read",)),
    "source-dep-read": (["c = plan.call(ident)", "T['c'] = @(reg.source(plan, St('r')))", "plan.add_dependency(c, T['c'])"], "c", "T['c']", None,
                        ("read",)),
    "stale-call": (["T['c'] = @(plan.call(ident))", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-call-far": (["T['c'] = @(plan.call(ident))", "E = plan.call(ident, T['c'])", "reg.add(E, St())", "reg.add(T['c'], St('m'))"], "c", "E", "c",
                       None),
    "stale-gather": (["x = plan.call(ident)", "T['c'] = @(plan.gather((x,)))", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-piece": (["x = plan.call(mklist)", "T['c'] = @(plan.unpack(x, 1))[0]", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-piece1": (["x = plan.call(mklist3)", "T['c'] = @(plan.unpack(x, 3))[1]", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-piece2": (["x = plan.call(mklist3)", "p, q, *w = @(plan.unpack(x, 4))", "T['c'] = w[1]", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-pieces": (["x = plan.call(mklist3)", "y = @(plan.unpack(x, 2))", "T['c'] = y[1]", "e = plan.gather([y[0], T['c']])", "reg.add(e, St())",
                      "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-kw": (["x = plan.call(ident)", "T['c'] = @(plan.call(ident, a=x, b=[x], c={'k': (x, {x})}))", "reg.add(T['c'], St('m'))"], "c", "None", "c", None),
    "stale-gather-in": (["x = plan.call(ident)", "T['y'] = @(plan.gather([0, (x,)]))", "T['c'] = inside(plan, T['y'])", "reg.add(T['c'], St('m'))"],
                        "y", "None", "c", None),
    "stale-arg-in": (["x = plan.call(ident)", "T['y'] = @(plan.call(ident, 1, [x]))", "T['c'] = inside(plan, T['y'])", "reg.add(T['c'], St('m'))"],
                     "y", "None", "c", None),
    "stale-unpack-in": (["x = plan.call(ident)", "T['y'] = @(plan.unpack(x, 2))", "T['c'] = inside(plan, T['y'][1])", "reg.add(T['c'], St('m'))"],
                        "y", "None", "c", None),
    "write-piece1": (["x = plan.call(mklist3)", "c = plan.unpack(x, 3)[2]", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "write-source-twin": (["d = reg.source(plan, St('', 1))", "c = plan.call(ident, d)", "T['c'] = @(reg.add(c, St('w')))"], "c", "None", None, ("write",)),
    "stale-source": (["T['c'] = @(reg.source(plan, St('m')))"], "c", "T['c']", "c", None),
    "stale-source-used": (["T['c'] = @(reg.source(plan, St('m')))", "e = plan.call(ident, T['c'])", "reg.add(e, St())"], "c", "None", "c", None),
    "stale-lit": (["T['c'] = @(plan.lit(3))", "T['d'] = reg.add(T['c'], St('m'))"], ("c", "d"), "None", None, None),
    "output-gather": (["x = plan.call(mklist)", "T['c'] = @(uj.run(plan, output={x}, registry=reg, progress=PR))"], "c", "RUN", None, ("gather_set",)),
    "output-nested": (["x = plan.call(mklist)", "T['c'] = @(uj.run(plan, output=[1, ({x: 1},)], progress=PR))"], "c", "RUN", None, ("gather_dict",)),
    "output-stored": (["x = plan.call(ident)", "T['c'] = reg.add(x, St('r'))", "@(uj.run(plan, output=[x], registry=reg, progress=PR))"], "c", "RUN", None,
                      ("read",)),
}

# site forms: how the marked expression appears.  {e} is the expression.
FORMS = {
    "plain": ("", "{e}"),
    "lambda": ("", "(lambda: {e})()"),
    "listcomp": ("", "[{e} for _ in range(1)][0]"),
    "genexp": ("", "next({e} for _ in range(1))"),
    "multiline": ("", "(\n\n{e}\n)"),
    "helper": ("def H(f):\n\n    return f()\n", "H(lambda: {e})"),
    "helper2": ("def H(f):\n    return G(f)\ndef G(f):\n    x = f()\n    return x\n", "H(lambda: {e})"),
    "gen": ("def H(f):\n    y = f()\n    yield y\n", "next(H(lambda: {e}))"),
    "sorted": ("", "sorted([0], key=lambda _: T.__setitem__('_', {e}) or 0) and T['_']"),
    "method": ("class K:\n    def m(self, f):\n        return f()\n", "K().m(lambda: {e})"),
    "prop": ("class K:\n    def __init__(s, f):\n        s.f = f\n    @property\n    def m(self):\n        return self.f()\n", "K(lambda: {e}).m"),
    "eval": ("", "eval({e!r})"),
    "ctx": ("import contextlib\n@contextlib.contextmanager\ndef H(f):\n    y = f()\n    yield y\n", "contextlib.ExitStack().enter_context(H(lambda: {e}))"),
    "partial": ("import functools\n", "functools.partial(lambda: {e})()"),
    "coro": ("async def H(f):\n    return f()\ndef drive(c):\n    try:\n        c.send(None)\n    except StopIteration as s:\n        return s.value\n",
             "drive(H(lambda: {e}))"),
    "recursive": ("def H(n, f):\n    if n:\n        return H(n - 1, f)\n    return f()\n", "H(6, lambda: {e})"),
    "scoped": ("def H(f):\n    with plan.scope('s', 1):\n        return f()\n", "H(lambda: {e})"),
}
# call forms: how the API function itself is reached, with no Python frame of its own in between
REACH = {
    "direct": "{f}({a})",
    "partial": "__import__('functools').partial({f})({a})",
    "star": "(lambda *a, **k: {f}(*a, **k))({a})",
    "bound": "getattr({f}.__self__, {f}.__name__)({a})",
}
FILES = ("/work/prog.py", "/home/me/uberjob/jobs.py", "<stdin>", "<string>", "<frozen importlib._bootstrap>", "<ipython-input-1-abc>", "/opt/uberjob_app/src/uberjob/_plan.py", "/usr/lib/python3/threading.py", "C:\\a b\\é.py")


def program(kind, form, depth, reach="direct", blank=0, scope=False):
    """Nested functions L0 .. L<depth-1>; the innermost holds the kind's lines.  Returns the source text."""
    body, tag, out, ident_tag, fns = KINDS[kind]
    pre, tmpl = FORMS[form]
    head = "\n" * blank + "pass\n" + pre
    lines = []
    for ln in body:
        i = ln.find("@(")
        if i >= 0:
            d = 0
            for j in range(i + 1, len(ln)):
                d += {"(": 1, ")": -1}.get(ln[j], 0)
                if d == 0:
                    break
            e = ln[i + 2 : j]
            if reach != "direct":
                k = e.index("(")
                e = REACH[reach].format(f=e[:k], a=e[k + 1 : -1])
            e = tmpl.format(e=e)
            ln = ln[:i] + "(" + e + ")" + ln[j + 1 :]
        lines.append(ln)
    decoys = "boom_ = plan.call(ident)\nplan.gather([boom_])\nplan.unpack([boom_], 1)\nreg.source(plan, St('', 1))\nreg.add(boom_, St('', 1))\n"
    inner = decoys + "\n".join(lines) + "\n" + decoys
    if out != "RUN":
        inner += f"T['out'] = {out}\n"
    if scope:
        inner = "with plan.scope('a', (1, None)):\n" + "".join("    " + ln + "\n" for ln in inner.split("\n"))
    src = head
    for d in range(depth):
        nxt = f"L{d + 1}()" if d < depth - 1 else None
        src += f"def L{d}():\n"
        if nxt:
            src += f"    x{d} = 1\n    {nxt}\n    return x{d}\n"
        else:
            src += "    try:\n" + "".join("        " + ln + "\n" if ln else "\n" for ln in inner.split("\n"))
            src += "    except BaseException as e:\n        T['err'] = e\n    finally:\n        T['lock'].release()\n"
    return src


def build(ns, src, filename):
    exec(compile(src, filename, "exec"), ns)


def namespace(uj, progress):
    plan, reg = uj.Plan(), uj.Registry()
    return {"plan": plan, "reg": reg, "uj": uj, "T": {}, "PR": progress, "St": store_class(), "boom": boom, "ident": ident, "mklist": mklist, "mklist3": mklist3, "inside": inside,
            "__name__": "prog"}


def build_both(src, filename, bare, progress):
    """Namespaces of the recorded and the real program; both are entered from the same harness line."""
    import uberjob

    both = [namespace(Rec, None), namespace(uberjob, progress)]
    for ns in both:
        build(ns, src, filename)
    for ns in both:
        del MADE[:]
        # a bare thread has nothing of the harness beneath L0
        lock = ns["T"]["lock"] = _thread.allocate_lock()
        lock.acquire()
        _thread.start_new_thread(ns["L0"], ()) if bare else ns["L0"]()
        lock.acquire()
    return both, [ns["T"].get("err") for ns in both]


def chain(frame):
    import uberjob._util.traceback as tb

    out = []
    while frame is not None:
        if frame is getattr(tb, "TruncatedStackFrame", None) or not hasattr(frame, "path"):
            out.append(TRUNC)
            break
        out.append((frame.name, frame.path, frame.line))
        frame = frame.outer
        if len(out) > 50:
            break
    return tuple(out)


LINE = re.compile(r'^\s*File "(.*)", line (\d+), in (.*)$')


def rendered(text):
    out = []
    for ln in text.split("\n")[1:]:
        m = LINE.match(ln)
        if m:
            out.append((m[3], m[1], int(m[2])))
        elif "truncated" in ln.lower():
            out.append(TRUNC)
    return tuple(reversed(out))


def observer_progress(seen):
    from uberjob.progress import Progress, ProgressObserver

    class O(ProgressObserver):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def increment_total(self, *, section, scope, amount):
            pass

        def increment_running(self, *, section, scope):
            pass

        def increment_completed(self, *, section, scope):
            pass

        def increment_failed(self, *, section, scope, exception):
            seen.append(exception)

    return Progress(O)


MODES = {
    "base": {},
    "copies": {"copy": True},
    "again": {"again": True},
    "w4": {"max_workers": 4},
    "w1": {"max_workers": 1},
    "keepgoing": {"max_errors": None},
    "retry": {"retry": 3},
    "random": {"scheduler": "random"},
    "stale1": {"stale_check_max_workers": 1, "max_workers": 3},
}


def case(r, kind, form, depth, bare=False, mode="base", file=0, reach="direct", blank=0, scope=False):
    import uberjob

    args = dict(kind=kind, form=form, depth=depth, bare=bare, mode=mode, file=file, reach=reach, blank=blank, scope=scope)
    body, tag, out, ident_tag, fns = KINDS[kind]
    r.n["evaluations"] += 1
    seen = []
    src = program(kind, form, depth, reach, blank, scope)
    (rec, real), errs = build_both(src, FILES[file], bare, observer_progress(seen))
    if errs[0] is not None:
        raise RuntimeError(f"recorded program failed: {errs[0]!r}\n{src}")
    T = real["T"]
    want = {rec["T"][t].frames if not isinstance(rec["T"][t], tuple) else rec["T"][t][0].frames for t in ([tag] if isinstance(tag, str) else tag)}
    where = f"{kind}/{form} depth {depth}{' bare thread' if bare else ''} {mode} {reach} {FILES[file]}"
    key = f"{kind}"
    e = errs[1]
    if out == "RUN":
        if e is None:
            r.violation(f"{where}: run did not fail", key=key + " no failure", case=args)
            return
    else:
        if e is not None:
            r.violation(f"{where}: building the plan raised {e!r}", key=key + " build", case=args)
            return
        plan, reg = real["plan"], real["reg"]
        kw = dict(MODES[mode])
        if kw.pop("copy", False):
            plan, reg = plan.copy(), reg.copy()
        if kw.pop("again", False):
            try:
                uberjob.run(plan, output=T["out"], registry=reg, progress=None)
            except uberjob.CallError:
                pass
        try:
            uberjob.run(plan, output=T["out"], registry=reg, progress=observer_progress(seen), **kw)
            r.violation(f"{where}: run did not fail", key=key + " no failure", case=args)
            return
        except BaseException as x:
            e = x
    if not isinstance(e, uberjob.CallError):
        r.violation(f"{where}: run raised {e!r} (cause {e.__cause__!r}), not CallError", key=key + " not CallError", case=args)
        return
    r.n["distinct_nontrivial"] += 1
    for who, ce in [("the raised CallError", e)] + [("the CallError given to the progress observer", s) for s in seen[:3]]:
        got = chain(ce.call.stack_frame)
        if got not in want:
            r.violation(f"{where}: {who} has frames {got}, expected {sorted(want)}", key=f"{key} frames {who[:22]}", case=args)
        # frames at or beyond IPython's own are not listed
        text = rendered(str(ce))
        if text not in want:
            r.violation(f"{where}: the message of {who} lists (innermost first) {text}, expected {sorted(want)}", key=f"{key} message", case=args)
        name = getattr(ce.call.fn, "__name__", "?")
        if fns is not None and name not in fns:
            r.violation(f"{where}: {who} names a call to {name}, but a call to {fns[0]} failed", key=f"{key} call", case=args)
        if ident_tag is not None and ce.call is not T[ident_tag]:
            r.violation(f"{where}: {who} has another call than the failed one", key=f"{key} identity", case=args)
    r.seen((kind, form, min(depth, LIMIT + 1), bare))


def every_call(r, kind, form, depth, scope):
    """Every call of the plan in turn is made to fail (by the retry decorator, at its k-th execution)."""
    import uberjob

    args = dict(kind=kind, form=form, depth=depth, scope=scope, every=True)
    out = KINDS[kind][2]
    if out == "RUN":
        return
    src = program(kind, form, depth, "direct", 0, scope)
    del RECORD[:]
    (rec, real), errs = build_both(src, FILES[0], False, None)
    wanted = [t for t in RECORD if t.what not in ("lit", "add")]
    stores = {t.store.i: t.frames for t in RECORD if t.store is not None}
    where = f"{kind}/{form} depth {depth}{' scoped' if scope else ''} every call"
    if errs != [None, None]:
        raise RuntimeError(f"program failed: {errs!r}\n{src}")
    plan, reg, T = real["plan"], real["reg"], real["T"]
    # the calls of the plan, in the order of their creation, against the lines recorded
    at = 0
    for node in plan.graph.nodes:
        if not hasattr(node, "fn"):
            continue
        got = chain(node.stack_frame)
        r.n["evaluations"] += 1
        while at < len(wanted) and wanted[at].frames != got:
            at += 1
        if at == len(wanted):
            r.violation(f"{where}: a call to {getattr(node.fn, '__name__', '?')} has frames {got}, which are those of no line of the program (from the "
                        "lines of the calls made before it on)", key=f"{kind} every", case=args)
            return
    for st in MADE:
        st.bad = ""
    for k in range(1, 60):
        n = 0

        def retry(fn):
            def f(*a, **kw):
                nonlocal n
                n += 1
                if n == k:
                    raise Boom("injected")
                return fn(*a, **kw)

            return f

        e = None
        output = list(plan.graph.nodes)[-1] if k % 2 else T["out"]
        try:
            uberjob.run(plan, output=output, registry=reg, progress=None, retry=retry, max_workers=1)
        except BaseException as x:
            e = x
        if n < k or e is None:
            break
        if not isinstance(e, uberjob.CallError):
            r.violation(f"{where}: failure of execution {k}: run raised {e!r}", key=f"{kind} every", case=args)
            return
        if not (isinstance(e.__cause__, Boom) and e.__cause__.args == ("injected",)):
            continue
        r.n["distinct_nontrivial"] += 1
        owner = getattr(e.call.fn, "__self__", None)
        got = chain(e.call.stack_frame)
        if isinstance(owner, store_class()):
            if got != stores[owner.i]:
                r.violation(f"{where}: a failing {e.call.fn.__name__} of a store has frames {got}, registered at {stores[owner.i]}", key=f"{kind} every",
                            case=args)
        elif got and got[0][1] != FILES[0] and not isinstance(output, uberjob.graph.Node):
            continue  # a gather of the output specification, made by the line that called run
        elif got not in [t.frames for t in wanted] + list(stores.values()):
            r.violation(f"{where}: the failure of {e.call!r} has frames {got}, of no line of the program", key=f"{kind} every", case=args)
        if rendered(str(e)) != got:
            r.violation(f"{where}: frames {got} but the message lists {rendered(str(e))}", key=f"{kind} every", case=args)


HELPED = {
    "plan.call(boom, x)": "boom", "plan.gather({n0: x})": "gather_dict", "plan.unpack(n0, 3)": "unpack", "reg.source(plan, St('r', 1))": "read",
    "plan.call(ident, [{n0}])": "gather_set",
}


def extra(r):
    """transform_physical, subclasses of Plan and Registry, and a plan built at module level, in a class body and in a thread pool."""
    import uberjob
    from concurrent.futures import ThreadPoolExecutor

    St = store_class()

    def check(where, e, want):
        r.n["evaluations"] += 1
        r.n["distinct_nontrivial"] += 1
        if not isinstance(e, uberjob.CallError):
            r.violation(f"{where}: {e!r}", key=where)
            return
        got = chain(e.call.stack_frame)[: len(want)]
        if got != want:
            r.violation(f"{where}: frames {got}, expected {want}", key=where)
        if rendered(str(e))[: len(want)] != want:
            r.violation(f"{where}: message lists {rendered(str(e))}, expected {want}", key=where)

    def err(f, *a, **k):
        try:
            f(*a, **k)
        except BaseException as e:
            return e

    # transform_physical
    box = []

    def tp(plan, out):
        box.append(caller(0)[0]); c = plan.call(boom)  # noqa: E702
        return plan, c

    p = uberjob.Plan()
    p.call(ident)
    check("transform_physical", err(uberjob.run, p, transform_physical=tp, progress=None), (box[0],))

    # subclasses: the overriding method's line made the call
    for P in (RecPlan, uberjob.Plan):
        src = (
            "class MyPlan(Base):\n    def call(self, fn, *a):\n        return super().call(fn, *a)\n"
            "    def job(self, fn):\n\n        return self.call(fn)\n"
            "def go(p):\n    return p.job(boom)\n"
        )
        ns = {"Base": P, "boom": boom}
        exec(compile(src, "/w/sub.py", "exec"), ns)
        p = ns["MyPlan"]()
        if P is RecPlan:
            want = ns["go"](p).frames[:3]
        else:
            c = ns["go"](p)
            check("subclass", err(uberjob.run, p, output=c, progress=None), want)

    # class bodies and module level
    src = "class A:\n    plan = P()\n    class B:\n        pass\n    x = [\n        plan.call(\n            boom,\n            1,\n        )\n    ]\n"
    for P in (RecPlan, uberjob.Plan):
        ns = {"P": P, "boom": boom}
        exec(compile(src, "/w/mod.py", "exec"), ns)
        if P is RecPlan:
            want = ns["A"].x[0].frames[:2]
        else:
            check("class body", err(uberjob.run, ns["A"].plan, output=ns["A"].x[0], progress=None), want)

    # plans built on a pool's threads, 30 calls deep
    def deep(f, n):
        return f() if n == 0 else deep(f, n - 1)

    with ThreadPoolExecutor(2) as ex:
        for n in range(0, 30):
            p = uberjob.Plan()
            rp = RecPlan()
            w, c = [ex.submit(deep, f, n).result() for f in (lambda: [q.call(boom) for q in (rp, p)],)][0]
            check("thread pool", err(uberjob.run, p, output=c, progress=None), w.frames)

    # one helper line reached from several places: each call keeps its own enclosing frames
    for k, fns in HELPED.items():
        src = (
            f"def inner(x):\n    return {k}\ndef a(x):\n    return inner(x)\ndef b(x):\n\n    y = inner(x)\n    return y\n"
            "def c(x):\n    return b(x) if x else a(x)\n"
            "def go():\n    out = []\n    for f in (a, b, a, c):\n        for x in (0, 1):\n            out.append(f(x))\n    out.append(a(2))\n"
            "    out.append(c(3)); out.append(c(0))\n    return out\n"
        )
        ns = []
        for uj in (Rec, uberjob):
            ns.append(namespace(uj, None))
            ns[-1]["n0"] = ns[-1]["plan"].call(mklist)
            ns[-1]["regs"] = [ns[-1]["reg"]]
            exec(compile(src, "/w/helped.py", "exec"), ns[-1])
        wants, nodes = [n["go"]() for n in ns]
        for i, (w, c) in enumerate(zip(wants, nodes)):
            w = (w[0] if isinstance(w, tuple) else w).frames
            out = c[0] if isinstance(c, tuple) else c
            check(f"helper {k}", err(uberjob.run, ns[1]["plan"], output=out, registry=ns[1]["reg"], progress=None), w)

    # the registered call is shared by two registries
    p = uberjob.Plan()
    c = p.call(ident)
    frames = []
    regs = []
    for i in range(2):
        g = uberjob.Registry()
        frames.append(caller(0)[0]); g.add(c, St("w"))  # noqa: E702
        regs.append(g)
        if i:
            continue
        g2 = uberjob.Registry()
        w2 = caller(0)[0]; g2.add(c, St("w"))  # noqa: E702
    for g, w in zip(regs, frames):
        check("two registries", err(uberjob.run, p, registry=g, progress=None), (w,))
    check("two registries", err(uberjob.run, p, registry=g2, progress=None), (w2,))
    # a copied registry keeps the line of the original entry
    check("registry copy", err(uberjob.run, p, registry=g2.copy(), progress=None), (w2,))
    # no output nor registry: nothing is attributed
    # a run within a call of another run: the inner failure is the outer one's cause and keeps its own line
    q = uberjob.Plan()
    qf = caller(0)[0]; qc = q.call(boom)  # noqa: E702

    def inner():
        uberjob.run(q, output=qc, progress=None)

    o = uberjob.Plan()
    of = caller(0)[0]; oc = o.call(inner)  # noqa: E702
    e = err(uberjob.run, o, output=oc, progress=None)
    check("nested outer", e, (of,))
    check("nested inner", e.__cause__, (qf,))
    r.seen("extra")


def tasks(tier, seed):
    out = [("extra",)]
    ks = list(KINDS)
    for kind in ks:
        out.append(("grid", kind, tier))
        out.append(("bare", kind, tier))
        out.append(("modes", kind, tier))
        out.append(("every", kind, tier))
    return out


def run_task(t):
    r = R()
    sys.setrecursionlimit(5000)
    if t[0] == "extra":
        extra(r)
        return r
    kind, tier = t[1:]
    deep = tier == "thorough"
    if t[0] == "grid":
        for form in FORMS:
            for depth in range(1, 9 if deep else 5):
                case(r, kind, form, depth)
                if depth < 3:
                    case(r, kind, form, depth, scope=True)
        for reach in REACH:
            if reach == "bound" and kind.startswith("output"):
                continue
            for form in FORMS if deep else ("plain", "helper", "gen"):
                case(r, kind, form, 2, reach=reach)
        for file in range(len(FILES)):
            for form in FORMS if deep else ("plain", "multiline", "lambda", "scoped"):
                for blank in (0, 1, 300, 70000):
                    case(r, kind, form, 2, file=file, blank=blank)
    elif t[0] == "bare":
        for form in FORMS:
            for depth in range(1, 12 if deep else 7):
                case(r, kind, form, depth, bare=True)
    elif t[0] == "modes":
        for mode in MODES:
            for form in FORMS if deep else ("plain", "helper2", "listcomp"):
                for depth in (1, 3, 5):
                    for bare in (False, True):
                        case(r, kind, form, depth, bare=bare, mode=mode)
    elif t[0] == "every":
        for form in FORMS:
            for depth in (1, 2, 4) if deep else (1, 3):
                for scope in (False, True):
                    every_call(r, kind, form, depth, scope)
    r.sample(f"{t[0]} {kind}: {list(FORMS)[:4]}..")
    return r


def replay(r, v):
    d = v["data"]
    if d.get("case", {}).get("every"):
        every_call(r, **{k: v for k, v in d["case"].items() if k != "every"})
    elif "case" in d:
        case(r, **d["case"])
    else:
        extra(r)


def coverage(t, tier):
    return {
        "evaluations": t.n["evaluations"], "distinct_nontrivial": t.n["distinct_nontrivial"], "distinct_sites": len(t.distinct),
        "rule": "every kind of failing symbolic call (user call, implicit and explicit gather, unpack, store write, read-back, store read, source "
                "read, modified-time query, output gather) x form of call site x nesting depth from 1 frame to beyond the limit x file name x run mode; "
                "expected frames from running the same program on recorders",
    }
