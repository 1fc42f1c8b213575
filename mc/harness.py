"""Runs one small plan under the controlled scheduler, over every schedule within a budget."""
import gc
import sys

from mc import boot, oddexc, oddvalues, plans, sched


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def fail_kth(k):
    """The k-th thread start of the run (and every later one) fails."""
    n = [0]

    def f():
        n[0] += 1
        return n[0] >= k

    return f


class Gate:
    """Holds every operation in flight until nothing else can happen, then lets one of them go (every choice explored).

    Because nothing moves while operations are held, the operations in flight at such a quiescent moment are exactly the
    most that the engine is willing to run at once.
    """

    def __init__(self, on_quiet=None):
        self.waiting = []
        self.peak = 0
        self.check = on_quiet
        self.bad = None

    def hold(self, t, what):
        tok = [False]
        self.waiting.append((what, tok))
        self.peak = max(self.peak, len(self.waiting))
        sched.S.wait_until(lambda: tok[0])

    def quiet(self):
        if not self.waiting:
            return False
        if self.check:
            m = self.check([w for w, _ in self.waiting])
            if m and not self.bad:
                self.bad = m
        i = sched.S.choose(len(self.waiting), "Y")
        _, tok = self.waiting.pop(i)
        tok[0] = True
        return True


class Case:
    """One driver: a plan spec plus the arguments of run.  Executions share the built plan."""

    def __init__(
        self, spec, *, W=2, scheduler=None, out=None, fails=None, max_errors=0, retry=None, order=0, flaky=None,
        progress=None, extra_points=1, values=True, dep_rev=False, hook=None, run_kwargs=None, odd=None, start_fail=None,
        gate=False,
    ):
        self.use_gate = gate
        self.gate = None
        self.quiet_check = None
        self.start_fail = start_fail
        self.spec = spec
        self.kinds = spec[0]
        self.n = len(self.kinds)
        self.W, self.scheduler, self.max_errors, self.retry, self.order = W, scheduler, max_errors, retry, order
        self.out = out or ("list", plans.sinks(spec))
        self.fails = fails or {}
        self.flaky = flaky or {}
        self.progress = progress
        self.points = extra_points
        self.hook = hook
        self.run_kwargs = run_kwargs or {}
        self.log = []
        self.exc = {}
        self.attempts = {}
        self.result = None
        self.error = None
        boot.reset_order(order)
        fns = [self._fn(i) if k == "c" else None for i, k in enumerate(self.kinds)]
        self.fns = fns
        self.odd = odd
        if odd:
            import uberjob

            plan = uberjob.Plan()
            with plan.scope(*oddvalues.catalog()[odd]):
                self.plan, self.nodes = plans.build(spec, fns, plan=plan, dep_rev=dep_rev)
        else:
            self.plan, self.nodes = plans.build(spec, fns, dep_rev=dep_rev)
        self.output = plans.build_out(self.out, self.nodes)
        self.mark = boot._order["n"]
        self.anc = plans.ancestors(spec)
        self.canc = plans.call_ancestors(spec)

    def describe(self):
        return dict(
            spec=self.spec, W=self.W, scheduler=self.scheduler, out=self.out, fails=self.fails, flaky=self.flaky,
            max_errors=self.max_errors, retry=self.retry, order=self.order, **({"odd": self.odd} if self.odd else {}),
        )

    def _fn(self, i):
        def f(*args, **kwargs):
            return self.call(i, args, kwargs)

        f.__name__ = f.__qualname__ = f"f{i}"
        return f

    def call(self, i, args, kwargs):
        s = sched.S
        t = sched.cur()
        log = self.log
        a = self.attempts[i] = self.attempts.get(i, 0) + 1
        log.append(("s", i, t.id if t else None))
        if self.hook:
            self.hook("s", i, args, kwargs)
        if t is not None:
            if self.gate is not None:
                self.gate.hold(t, ("s", i))
            else:
                for _ in range(self.points):
                    s.yield_(t)
        if self.hook:
            self.hook("m", i, args, kwargs)
        if i in self.fails or a <= self.flaky.get(i, 0):
            kind = self.fails.get(i, "E")
            e = self.make_exc(kind, i, a)
            self.exc.setdefault(i, []).append(e)
            log.append(("x", i, t.id if t else None))
            raise e
        log.append(("e", i, t.id if t else None))
        return ("v", i, args, tuple(kwargs.items()))

    def make_exc(self, kind, i, a):
        if kind == "B":
            return BoomBase(i, a)
        if kind == "K":
            return KeyboardInterrupt(i, a)
        if kind == "S":
            return SystemExit(i, a)
        if kind == "N":
            # an exception that already has a cause, context and a falsy truth value
            class FalsyError(Boom):
                def __bool__(self):
                    return False

                def __len__(self):
                    return 0
            e = FalsyError(i, a)
            e.__cause__ = ValueError("inner")
            return e
        if kind == "I":
            return StopIteration(i)
        if kind == "M":
            return MemoryError(i)
        if kind == "V":
            return ValueError(i)
        if kind == "P":  # same object raised by every failing call
            if not hasattr(self, "_shared"):
                self._shared = Boom("shared")
            return self._shared
        if kind != "E":
            return oddexc.make(kind, self, i, a)
        return Boom(i, a)

    def reset(self):
        self.log = []
        self.exc = {}
        self.attempts = {}
        self.result = None
        self.error = None
        self.__dict__.pop("_shared", None)
        boot._order["n"] = self.mark

    def main(self):
        import uberjob

        try:
            self.result = uberjob.run(
                self.plan, output=self.output, max_workers=self.W, max_errors=self.max_errors, retry=self.retry,
                scheduler=self.scheduler, progress=self.progress or None, **self.run_kwargs,
            )
            self.log.append(("ret",))
        except sched.SchedAbort:
            raise
        except BaseException as e:
            self.error = e
            self.log.append(("raise",))

    def body(self, s):
        self.reset()
        if self.start_fail:
            s.fail_start = fail_kth(self.start_fail)
        if self.use_gate:
            self.gate = Gate(self.quiet_check)
            s.on_quiet = self.gate.quiet
        return self.main

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=20_000):
        for s, ch in sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix,
                                   max_steps=max_steps):
            yield s, ch
            self.error = None
            self.exc = {}

    def once(self, choices, budget, trace=None):
        return sched.run_once(self.body, choices, budget, trace=trace)


def events(case):
    """The order-insensitive-to-thread-id view of a log, for counting distinct observed behaviours."""
    return tuple(e[:2] for e in case.log)


def absorb(r, st):
    r.n["executions"] += st.executions
    r.n["steps"] += st.steps
    r.n["switches"] += st.switches
    r.n["choice_points"] += st.choice_points
    r.n["diverged"] += st.diverged
    r.n["deadlocks"] += st.deadlocks
    r.n["livelocks"] += st.livelocks
    r.n["capped"] += st.capped
    r.max("steps_in_one_execution", st.max_steps)


def P(p=1, r=1, b=2, y=None, e=None, t=None):
    """Budgets: p preemptions at lock/bytecode points, r non-default random choices, b non-default picks when a thread
    blocks, y non-default picks inside call bodies (None: all relative timings of call bodies), t in total."""
    return {"P": p, "R": r, "B": b, "E": e, "Y": y, "T": t}


def op_trace(files=None, threads="workers"):
    return sched.OpTrace(boot.PKG, threads=threads, files=files)


# ---------------------------------------------------------------------------------------- tasks made of cases
def B(t=1, y=None, p=None, b=None, r=None, ops=False, cap=3000):
    """One exploration pass: at most t scheduling deviations, y (None: unlimited) relative-timing choices of call bodies."""
    return (t, y, t if p is None else p, t if b is None else b, t if r is None else r, ops, cap)


_traces = {}


def tracer(ops):
    if not ops:
        return None
    if ops not in _traces:
        files = None
        if ops == "exec":
            files = ("run_function_on_graph.py", "run_physical.py", "scheduler.py", "retry.py", "caching.py")
        elif ops == "progress":
            files = tuple(f"_{n}_progress_observer.py" for n in ("simple", "composite", "console", "html"))
        _traces[ops] = op_trace(files=files, threads="all" if ops in ("all", "progress") else "main" if ops == "main" else "workers")
    return _traces[ops]


def budget_of(ps):
    t, y, p, b, r, ops, cap = ps
    return {"P": p, "R": r, "B": b, "E": None, "Y": y, "T": t}


class SkipExec(Exception):
    pass


def safe_repr(x):
    try:
        return repr(x)
    except Exception as e:
        return f"<unprintable: {type(e).__name__}>"


def run_cases(task, oracle, *, make=Case, seen=events, on_case=None):
    """task = (label, (case kwargs, ...), (pass, ...)).  oracle(case, sched) -> message or None."""
    from mc.core import R

    r = R()
    _, cases, passes = task
    for kw in cases:
        case = make(**dict(kw))
        r.n["cases"] += 1
        bad = False
        case_seen = set()
        for ps in passes:
            st = sched.Stats()
            for s, ch in case.explore(budget_of(ps), stats=st, cap=ps[6], trace=tracer(ps[5])):
                msg = oracle(case, s)
                case_seen.add(seen(case))
                if msg:
                    choices = [list(c) for c in ch.trace]
                    r.violation(
                        f"{msg}; case {case.describe()}; events {events(case)}"[:1500], key=key_of(msg, kw),
                        case=repr(dict(kw)), ps=list(ps), choices=choices, log=safe_repr(case.log)[:3000],
                    )
                    bad = True
                    break
            absorb(r, st)
            if bad:
                break
        for e in case_seen:
            r.seen((kw, e))
        r.max("distinct_event_orders_of_one_case", len(case_seen))
        if not r.samples and case_seen:
            r.sample({"case": repr(dict(kw)), "observed_orders": [repr(x) for x in sorted(case_seen, key=repr)[:3]]})
    return r


def key_of(msg, kw):
    return f"{msg} @ {sorted(dict(kw).items(), key=lambda p: p[0])!r}"[:400]


def replay_case(r, v, oracle, make=Case):
    import ast

    d = v["data"]
    kw = ast.literal_eval(d["case"])
    ps = tuple(d["ps"])
    case = make(**kw)
    # warm caches exactly as the explorer did
    sched.run_once(case.body, [], sched.ZERO)
    s, ch = case.once([tuple(c) for c in d["choices"]], budget_of(ps), trace=tracer(ps[5]))
    msg = oracle(case, s)
    print("events:", *case.log, sep="\n  ")
    if case.error is not None:
        print("run raised:", repr(case.error))
    if msg:
        r.violation(msg)


def kwt(**kw):
    """Case kwargs as a hashable, picklable tuple."""
    return tuple(sorted(kw.items()))


def chunk(cases, passes, size, label=""):
    cases = list(cases)
    return [(f"{label}{i}", tuple(cases[i:i + size]), passes) for i in range(0, len(cases), size)]


def coverage(total, _tier=None):
    n = total.n
    return {
        "states": n.get("choice_points", 0) + n.get("executions", 0),
        "transitions": n.get("steps", 0),
        "traces_validated_against_impl": n.get("executions", 0),
        "distinct_observed_event_orders": len(total.distinct),
        "explanation": "stateless exploration of the implementation itself: every execution is a complete run of the real "
                       "code under one schedule; states = nodes of the schedule tree visited, transitions = scheduling "
                       "points executed; free_running_traces additionally ran on unpatched OS threads with the same oracle",
    }


def free_traces(r, oracle, cases, make=Case, reps=3):
    n = 0
    for kw in cases:
        case = make(**dict(kw))
        for _ in range(reps):
            case.reset()
            case.main()
            n += 1
            msg = oracle(case, None)
            if msg:
                r.violation(f"free-running: {msg}; case {case.describe()}", key=key_of("free " + msg, kw),
                            case=repr(dict(kw)), log=repr(case.log)[:2000])
                break
    return n


def solo(fn, budget=None, trace=None):
    """Run fn once as the controlled main thread with default choices; returns (result, error, scheduler)."""
    s = sched.Scheduler(sched.Chooser([], budget or sched.ZERO))
    s.run(fn)
    return s.result, s.error, s
