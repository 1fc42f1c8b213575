"""C20: bundled progress displays render every reachable state, ending with the final counts."""
import ast
import collections
import io
import itertools
import os
import pathlib
import re
import shutil
import sys
import tempfile
from html.parser import HTMLParser

from checks import c15
from checks.common import subsets
from checks.stored import R as REGS
from checks.stored import states
from mc import boot, harness as H
from mc import plans, sched
from mc.oddvalues import catalog
from mc.core import R

LEVEL = "model_checking"
BUDGET = {"quick": 240, "thorough": 800}
ASSUMPTIONS = [
    "notification sequences are the legal ones of C15; time is the scheduler's virtual clock, advanced by the harness in whole multiples of 12 s",
    "displayed counts are read back from the displayed text ('c / t', '(c + r) / t', 'k failed'), widget values or table rows",
    "a display is given its largest update interval to catch up before an intermediate rendering is compared",
    "the IPython display runs with the installed ipywidgets, without a kernel; `display` is replaced by a recorder",
]
INIT, MIN, MAX = 3.0, 5.0, 20.0
CATCH_UP = 36
OBS = ("console", "html", "ipython")


def exceptions():
    class BadStr(Exception):
        def __str__(self):
            raise ValueError("no")

    class BadCause(Exception):
        @property
        def __cause__(self):
            raise ValueError("no cause")

    deep = None
    for i in range(300):
        n = ValueError(i)
        n.__cause__ = deep
        deep = n
    a, b = ValueError("a"), ValueError("b")
    a.__cause__, b.__cause__ = b, a
    noted = ValueError("noted")
    noted.add_note("n\ud800")
    return {
        "plain": ValueError("x"), "empty": Exception(), "badstr": BadStr(), "badcause": BadCause(), "surrogate": ValueError("\ud800 \u00e9"),
        "markup": ValueError("<b>&</pre>"), "syntax": SyntaxError("m", ("f", 1, "a", "text")), "syntax2": SyntaxError("m", ("f", 1, 5, None)),
        "syntax3": SyntaxError("m", (None, 1, 2, 3)), "group": ExceptionGroup("g", [ValueError(1), ExceptionGroup("h", [BadStr()])]), "deep": deep,
        "cycle": a, "noted": noted, "huge": ValueError(10**5000), "oserror": OSError(2, "x", "\udcff"), "key": KeyError(("a", None)),
        "long": ValueError("x\n" * 3000), "decode": UnicodeDecodeError("utf8", b"\xff", 0, 1, "r"), "stop": StopIteration(3), "attr": AttributeError("x", name="y", obj=object()),
    }


def raised(e, depth=1):
    def go(n):
        if n:
            go(n - 1)
        raise e

    e.__traceback__ = None

    try:
        go(depth)
    except BaseException as x:
        return x


# ---- reading the displays back
PROG = r"\(?(\d+)(?: \+ (\d+)\))? / (\d+)(?:, (\d+) failed)?"
ROW = re.compile(rf"^ +{PROG} \| +((?:\d+h)?(?:\d+m)?\d+s) \| ", re.M)


def secs(s):
    m = re.fullmatch(r"(?:(\d+)h)?(?:(\d+)m)?(\d+)s", s)
    return int(m[1] or 0) * 3600 + int(m[2] or 0) * 60 + int(m[3])


def counts(m):
    """(completed, running, total, failed) of a PROG match's first four groups."""
    return int(m[1]), int(m[2] or 0), int(m[3]), int(m[4] or 0)


def read_console(text):
    """section -> [(counts, elapsed, scope text)] of one console rendering."""
    text = text.split("\nnew exceptions:\n")[0]
    out = {}
    ms = list(ROW.finditer(text))
    heads = [(m.start(), m[1]) for m in re.finditer(r"^(stale|run):$", text, re.M)]
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(text)
        body = text[m.end():end]
        for h, _ in heads:
            if m.end() <= h < end and body[: h - m.end()].endswith("\n"):
                body = text[m.end():h]
        sec = [s for h, s in heads if h < m.start()][-1:]
        out.setdefault(sec[0] if sec else None, []).append((counts(m), secs(m[5]), body.rstrip("\n")))
    return out


class Rows(HTMLParser):
    def __init__(self):
        super().__init__()
        self.section, self.rows, self.cell, self.foot, self.h3 = None, {}, None, False, None
        self.cells = []
        self.totals = {}

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.cells = []
        elif tag == "td":
            self.cell = ""
        elif tag == "tfoot":
            self.foot = True
        elif tag == "h3":
            self.h3 = ""

    def handle_endtag(self, tag):
        if tag == "td" and self.cell is not None:
            self.cells.append(self.cell)
            self.cell = None
        elif tag == "tfoot":
            self.foot = False
        elif tag == "h3":
            self.section = {"Determining stale value stores": "stale", "Running graph": "run"}.get(self.h3, self.h3)
            self.h3 = None
        elif tag == "tr" and len(self.cells) == 4:
            m = re.fullmatch(PROG, self.cells[1].strip())
            row = (counts(m) if m else None, secs(self.cells[2].strip()), self.cells[3].replace("\u200b", ""))
            if self.foot:
                self.totals[self.section] = row
            else:
                self.rows.setdefault(self.section, []).append(row)

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data
        if self.h3 is not None:
            self.h3 += data


def read_html(data):
    p = Rows()
    p.feed(data.decode("utf-8"))
    p.close()
    for sec, (c, e, _) in p.totals.items():
        want = tuple(sum(r[0][i] for r in p.rows[sec]) for i in range(4))
        if c != want:
            raise ValueError(f"the Total row of section {sec} says {c}, its rows add up to {want}")
    return p.rows


def read_ipython(box):
    out = {}
    sec = None
    for ch in box.children if box is not None else ():
        v = getattr(ch, "value", None)
        if isinstance(v, str) and v in ("<b>Determining stale value stores</b>", "<b>Running graph</b>"):
            sec = "stale" if "stale" in v else "run"
        kids = getattr(ch, "children", ())
        if len(kids) == 2 and type(kids[0]).__name__ == "IntProgress":
            bar, lab = kids
            prog, el, sc = lab.value.split("; ", 2)
            c = counts(re.fullmatch(PROG, prog))
            if (bar.value, bar.max) != (c[0] + c[3], c[2]):
                raise ValueError(f"the bar shows {bar.value} of {bar.max}, the label {prog}")
            out.setdefault(sec, []).append((c, secs(el), sc.replace("\u200b", "")))
    return out


TITLE = re.compile(r"xception (\d+); .*?(Zq\d+z)", re.S)


def titles(text):
    return {(int(n), t) for n, t in TITLE.findall(text)}


class Display:
    """Creates a bundled observer, and collects what it displays."""

    def __init__(self, kind, enc=None):
        self.kind, self.enc = kind, enc
        self.boxes = []
        self.last = {}
        self.renders = self.at = 0
        self.told = set()  # (number, tag) of the exceptions displayed
        if kind == "console":
            self.out = io.StringIO() if enc is None else io.TextIOWrapper(io.BytesIO(), encoding=enc, errors="strict", newline="")
            self.pos = 0
        self.pages = []

    def observer(self):
        from uberjob import progress as P

        kw = dict(initial_update_delay=INIT, min_update_interval=MIN, max_update_interval=MAX)
        if self.kind == "console":
            return P.ConsoleProgressObserver(**kw)
        if self.kind == "html":
            return P.HtmlProgressObserver(self.page, **kw)
        if self.kind in ("htmlstr", "htmlpath"):
            self.dir = tempfile.mkdtemp(prefix="c20.")
            self.path = os.path.join(self.dir, "p.html")
            return P.HtmlProgressObserver(pathlib.Path(self.path) if self.kind == "htmlpath" else self.path, **kw)
        return P.IPythonProgressObserver(**kw)

    def page(self, data):
        if not isinstance(data, bytes):
            raise TypeError("the output function was not given bytes")
        self.pages.append(data)

    def shown(self, box):
        self.boxes.append(box)

    def __enter__(self):
        if self.kind == "console":
            self.old, sys.stdout = sys.stdout, self.out
        elif self.kind == "ipython":
            import IPython.display as D

            self.old, D.display = D.display, self.shown
        return self

    def __exit__(self, *a):
        if self.kind == "console":
            sys.stdout = self.old
        elif self.kind in ("htmlstr", "htmlpath"):
            shutil.rmtree(self.dir, ignore_errors=True)
        elif self.kind == "ipython":
            import IPython.display as D

            D.display = self.old

    def read(self):
        """The latest rendering of each section."""
        if self.kind == "console":
            if self.enc is None:
                text = self.out.getvalue()
            else:
                self.out.flush()
                text = self.out.buffer.getvalue().decode(self.enc)
            new, self.pos = text[self.pos:], len(text)
            self.told |= titles(new)
            parts = re.split(r"^uberjob, elapsed (\w+), updated .*$\n", new, flags=re.M)
            for at, p in zip(parts[1::2], parts[2::2]):
                self.renders += 1
                self.at = secs(at)
                self.last.update(read_console(p))
        elif self.kind != "ipython":
            if self.kind != "html" and os.path.exists(self.path):
                if os.listdir(self.dir) != ["p.html"]:
                    raise ValueError(f"files {os.listdir(self.dir)}")
                with open(self.path, "rb") as f:
                    self.pages = [f.read()]
            self.renders += len(self.pages)
            if self.pages:
                self.last = read_html(self.pages[-1])
                self.told = titles(self.pages[-1].decode("utf-8"))
                self.at = secs(re.search(rb"<h6>Elapsed (\w+)</h6>", self.pages[-1])[1].decode())
            self.pages = []
        elif self.boxes:
            if len(self.boxes) != 1:
                raise ValueError(f"display was called {len(self.boxes)} times")
            self.renders += 1
            self.last = read_ipython(self.boxes[0])
            self.told = set()
            for ch in self.boxes[0].children:
                if type(ch).__name__ == "Accordion":
                    for i in range(len(ch.children)):
                        if "<pre" not in ch.children[i].value:
                            raise ValueError("an exception without text")
                        self.told |= titles(ch.get_title(i) or "")
            self.at = secs(re.match(r"elapsed (\w+);", self.boxes[0].children[0].children[1].value)[1])
        return self.last


# ---- layer 1: an observer driven directly
def scope_sets(name):
    return catalog()[name]


class Drive:
    """Drives one observer through a legal notification sequence, with the update thread free to render at chosen moments."""

    def __init__(self, obs="console", totals=((1,), (2, 1)), scopes="str", order=0, exc="plain", script=None, every=False, time=True, enc=None, fails=True,
                 unfinished=False, alias=False, threads=0, deepexc=1, shared=False):
        self.args = dict(obs=obs, totals=totals, scopes=scopes, order=order, exc=exc, script=script, every=every, time=time, enc=enc, fails=fails,
                         unfinished=unfinished, alias=alias, threads=threads, deepexc=deepexc, shared=shared)
        self.__dict__.update(self.args)
        if scopes != "plain":
            vals = scope_sets(scopes)
            n = sum(map(len, totals))
            if order:
                vals = vals[order % len(vals):] + vals[: order % len(vals)]
            if order >= 100:
                vals = vals[::-1]
        self.keys = []
        k = 0
        for s, sec in enumerate(("stale", "run")):
            if shared:  # the same scopes in both sections
                k = 0
            for i in range(len(totals[s]) if s < len(totals) else 0):
                if scopes == "plain":
                    sc = (f"s{i}", f"Zq{k}z")
                elif i % 3 == 2:
                    sc = (*vals, f"Zq{k}z")
                else:
                    sc = (vals[i % len(vals)], f"Zq{k}z")
                self.keys.append((sec, sc, totals[s][i], f"Zq{k}z"))
                k += 1
        self.excs = exceptions() if exc != "one" else None
        self.log = []
        self.error = None

    def describe(self):
        return self.args

    def body(self, s):
        self.log = []
        self.error = self.bad = None
        self.state = {(k[0], k[3]): [0, 0, 0, 0] for k in self.keys}  # completed, running, total, failed
        self.failures = []  # the tags of the failures, in order
        self.marks = []  # (instant, change of the number of running calls)
        self.disp = Display(self.obs, self.enc)
        self.s = s
        return self.main

    def explore(self, budget, *, stats, cap=None, trace=None, prefix=(), max_steps=40_000):
        for s, ch in sched.explore(self.body, budget, stats=stats, cap=cap, trace=trace, prefix=prefix, max_steps=max_steps):
            yield s, ch

    def once(self, choices, budget, trace=None):
        return sched.run_once(self.body, choices, budget, trace=trace)

    # -- notifications
    def scope(self, key, use):
        sc = key[1]
        if not self.alias:
            return sc
        # equal scopes that are different objects of different types
        return ((1, True, 1.0)[use % 3], *sc[1:])

    def notify(self, ob, what, key):
        st = self.state[key[0], key[3]]
        sec, sc = key[0], self.scope(key, {"total": 0, "running": 1, "completed": 2, "failed": 0}[what])
        self.log.append((what, key[3]))
        if what == "total":
            ob.increment_total(section=sec, scope=sc, amount=key[2])
            st[2] += key[2]
        elif what == "running":
            ob.increment_running(section=sec, scope=sc)
            st[1] += 1
            self.marks.append((sched.S.now, 1))
        elif what == "completed":
            ob.increment_completed(section=sec, scope=sc)
            st[1] -= 1
            st[0] += 1
            self.marks.append((sched.S.now, -1))
        else:
            e = self.excs[self.exc] if self.exc != "each" else list(self.excs.values())[len(self.log) % len(self.excs)]
            ob.increment_failed(section=sec, scope=sc, exception=raised(e, self.deepexc))
            st[1] -= 1
            st[3] += 1
            self.failures.append(key[3])
            self.marks.append((sched.S.now, -1))

    def running(self):
        return sum(v[1] for v in self.state.values())

    def let(self, d):
        """d seconds pass; the update thread may run."""
        sched.S.sleep(d)

    def step(self):
        if self.every:
            self.log.append("t")
            self.let(CATCH_UP)
            self.compare("after an update was due")
        elif self.script is None:
            if self.time:
                k = sched.S.choose(3 if self.time == 2 else 2, "Y")
                if k == 2:
                    self.log.append("a")
                    sched.S.advance(12)
                elif k:
                    self.log.append("t")
                    self.let(12)

    def compare(self, when, final=False):
        if self.bad:
            return
        try:
            got = self.disp.read()
        except Exception as e:
            self.bad = f"{self.obs} {when}: unreadable display: {e!r}"
            return
        seen = collections.Counter()
        for sec in got:
            for c, el, text in got[sec]:
                m = re.findall(r"Zq\d+z", text)
                if len(m) != 1:
                    self.bad = f"{self.obs} {when}: unexpected row {text[-80:]!r}"
                    return
                seen[sec, m[0]] += 1
                st = self.state.get((sec, m[0]))
                if st is None:
                    self.bad = f"{self.obs} {when}: section {sec} has a row for {m[0]}, which belongs to another section"
                    return
                if c != tuple(st):
                    self.bad = f"{self.obs} {when}: scope {m[0]} of {sec} shows {c}, the counts are {tuple(st)} (completed, running, total, failed)"
                    return
        for key in self.keys:
            n = seen[key[0], key[3]]
            if n != (1 if self.state[key[0], key[3]][2] else 0):
                self.bad = f"{self.obs} {when}: scope {key[3]} of {key[0]} has {n} rows"
                return
        if not self.threads:
            miss = [x for x in enumerate(self.failures[:100], 1) if x not in self.disp.told]
            if miss:
                self.bad = f"{self.obs} {when}: the exception of the failure {miss[0]} is not displayed (displayed: {sorted(self.disp.told)[:5]})"
                return
        t = sched.S.now if final and not self.running() else self.t0 + self.disp.at + 0.999
        el = sum(x[1] for sec in got for x in got[sec])
        busy = self.busy(t)
        if not self.busy(t - 0.999) - len(seen) <= el <= busy:  # elapsed times are displayed in whole seconds
            self.bad = f"{self.obs} {when}: the scopes' elapsed times add up to {el} s, at least one call was running for {busy} s"

    def busy(self, t):
        """For how long at least one call was running until t."""
        out, n, since = 0.0, 0, 0.0
        for at, d in [*self.marks, (float("inf"), 0)]:
            if n:
                out += max(0.0, min(at, t) - since)
            n += d
            since = at
        return out

    def main(self):
        with self.disp:
            try:
                ob = self.disp.observer()
                self.t0 = sched.S.now
                ob.__enter__()
                try:
                    self.drive(ob)
                finally:
                    ob.__exit__(None, None, None)
                self.log.append("exit")
                self.compare("at the end", final=True)
            except sched.SchedAbort:
                raise
            except BaseException as e:
                self.error = e

    def drive(self, ob):
        if self.script:
            for what, *ks in self.script:
                if what == "sleep":
                    self.let(ks[0])
                elif what == "advance":
                    sched.S.advance(ks[0])
                elif what == "check":
                    self.let(CATCH_UP)
                    self.compare("after an update was due")
                else:
                    for k in ks:
                        self.notify(ob, what, self.keys[k])
                        if self.every:
                            self.step()
            return
        if self.threads:
            return self.drive_threads(ob)
        choose = sched.S.choose
        for sec in ("stale", "run"):
            keys = [k for k in self.keys if k[0] == sec]
            for k in keys:
                self.notify(ob, "total", k)
                self.step()
            left = {k[3]: k[2] for k in keys}
            while True:
                opts = []
                for k in keys:
                    if left[k[3]]:
                        opts.append(("running", k))
                    if self.state[k[0], k[3]][1]:
                        opts.append(("completed", k))
                        if self.fails:
                            opts.append(("failed", k))
                if self.unfinished:
                    opts.append(("stop", None))
                if not opts:
                    break
                what, k = opts[choose(len(opts), "Y")]
                if what == "stop":
                    break
                if what == "running":
                    left[k[3]] -= 1
                self.notify(ob, what, k)
                self.step()

    def drive_threads(self, ob):
        import threading

        for i, k in enumerate(self.keys):
            self.notify(ob, "total", k)
            if self.time == 2:
                sched.S.sleep(MIN if i else INIT)
        errs = []

        def worker(n):
            done = False
            try:
                for key in self.keys:
                    for i in range(key[2]):
                        if (i + key[2]) % self.threads == n:
                            self.pair(ob, key, "failed" if self.fails and i % 2 else "completed", not done)
                            done = True
            except sched.SchedAbort:
                raise
            except BaseException as e:
                errs.append(e)

        ts = [threading.Thread(target=worker, args=(i,)) for i in range(self.threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]

    def pair(self, ob, key, what, first):
        sec, sc = key[0], key[1]
        st = self.state[key[0], key[3]]
        ob.increment_running(section=sec, scope=sc)
        self.marks.append((sched.S.now, 1))
        if self.time:
            sched.S.sleep(INIT if first and self.time == 1 else MIN)  # a rendering is due when this worker goes on
        if what == "completed":
            ob.increment_completed(section=sec, scope=sc)
        else:
            ob.increment_failed(section=sec, scope=sc, exception=raised(ValueError("x")))
        self.marks.append((sched.S.now, -1))
        st[{"completed": 0, "failed": 3}[what]] += 1


def drive_oracle(c, s):
    if s is not None:
        if s.uncaught:
            return f"{c.obs}: the update thread died: {s.uncaught[0][:200]}"
        if s.deadlock or s.livelock:
            return f"{c.obs}: the display never ends ({'deadlock' if s.deadlock else 'no end in ' + str(s.steps) + ' steps'})"
    if c.error is not None:
        return f"{c.obs}: a notification raised {c.error!r}"
    if c.bad:
        return c.bad
    if c.disp.renders == 0:
        return f"{c.obs}: nothing was ever displayed"
    return None


# ---- layer 2: whole runs with a display attached
class RunCase(c15.PCase):
    def __init__(self, spec, state=(), *, obs="console", enc=None, kinds="str", **kw):
        n = len(spec[0])
        if kinds != "own":
            vals = catalog()[kinds]
            kw["scopes"] = tuple((vals[j % len(vals)],) if j % 3 else (vals[j % len(vals)], vals[(j + 1) % len(vals)]) for j in range(n))
        super().__init__(spec, state, how="one", **kw)
        self.obs, self.enc, self.sk = obs, enc, kinds
        self.args.update(obs=obs, kinds=kinds, enc=enc)
        self.args.pop("scopes", None)

    def make_progress(self):
        from uberjob.progress import Progress

        Rec, _ = c15.make_rec()
        return (Progress(lambda: Rec(self, "A")), Progress(self.disp.observer))

    def main(self):
        self.disp = Display(self.obs, self.enc)
        with self.disp:
            super().main()


def text_of(scope):
    return ", ".join(map(str, scope))


def run_oracle(c, s):
    if s is not None:
        if s.uncaught:
            return f"{c.obs}: the update thread died: {s.uncaught[0][:200]}"
        if s.deadlock or s.livelock:
            return f"{c.obs}: the run never ends"
    if not c.members:
        return None
    want = {}
    for e in c.members[0].log:
        if e[0] in ("total", "running", "completed", "failed"):
            v = want.setdefault(e[1:3], [0, 0, 0, 0])
            if e[0] == "total":
                v[2] += e[3]
            elif e[0] == "running":
                v[1] += 1
            else:
                v[1] -= 1
                v[0 if e[0] == "completed" else 3] += 1
    try:
        got = c.disp.read()
    except Exception as e:
        return f"{c.obs}: unreadable display {e!r}"
    enc = (lambda t: t.encode(c.enc, "backslashreplace").decode(c.enc)) if c.enc else (lambda t: t)
    try:
        a = collections.Counter((sec, tuple(v), enc(text_of(sc))) for (sec, sc), v in want.items())
    except Exception:  # values without a str
        a = collections.Counter((sec, tuple(v)) for (sec, sc), v in want.items())
        b = collections.Counter((sec, cn) for sec in got for cn, _, t in got[sec])
    else:
        if c.obs == "html":
            a = collections.Counter({(x, y, z.encode("utf-8", "backslashreplace").decode()): n for (x, y, z), n in a.items()})
        b = collections.Counter((sec, cn, t) for sec in got for cn, _, t in got[sec])
    if c.obs != "console":  # zero-width spaces are for line breaks, and not part of the text
        a = collections.Counter({(*k[:2], *(z.replace("\u200b", "") for z in k[2:])): n for k, n in a.items()})
    if a != b:
        return f"{c.obs}: the last rendering shows {sorted((b - a).items(), key=repr)[:3]}, the run ended with {sorted((a - b).items(), key=repr)[:3]}"
    return None


def seen_drive(c):
    return tuple(c.log)


def seen_run(c):
    ids = {}
    return tuple((e[0], ids.setdefault(id(e[2]), len(ids)), *e[3:4]) if len(e) > 2 and e[0] != "P" else e[:1] for m in c.members for e in m.log if e[0] != "failed")


def setup():
    try:
        import ipywidgets  # noqa: F401
        import IPython.display  # noqa: F401
    except ImportError:
        global OBS
        OBS = ("console", "html")


def run_task(task):
    label = task[0]
    if label.startswith("run-"):
        return H.run_cases(task, run_oracle, make=RunCase, seen=seen_run)
    return H.run_cases(task, drive_oracle, make=Drive, seen=seen_drive)


def replay(r, v):
    kw = ast.literal_eval(v["data"]["case"])
    if "spec" in kw:
        H.replay_case(r, v, run_oracle, RunCase)
    else:
        H.replay_case(r, v, drive_oracle, Drive)


def coverage(t, tier):
    return H.coverage(t, tier)


ONE = (H.B(0, 0, cap=1),)


def scripts():
    """Scripts over keys 0 (stale) and 1, 2, 3 (run): every pair of outcomes, with a rendering due after each notification."""
    out = []
    for a in ("completed", "failed"):
        for b in ("completed", "failed"):
            out.append((("total", 0), ("running", 0), (a, 0), ("total", 1, 2, 3), ("running", 1), ("running", 1, 2), (b, 1), ("running", 3),
                        (a, 2), ("completed", 1), (b, 3)))
    return tuple(out)


def tasks(tier, seed):
    q = tier == "quick"
    T = []
    cats = list(catalog())
    # every kind of scope value, every notification followed by a due rendering
    cs = []
    for ob in OBS:
        for name in cats:
            for order in (0, 1, 2, 101) if q else (0, 1, 2, 3, 4, 100, 101, 102):
                for i, sc in enumerate(scripts()):
                    if q and (i + order + len(name)) % 2:
                        continue
                    cs.append(H.kwt(obs=ob, totals=((1,), (2, 1, 1)), scopes=name, order=order, script=sc, every=True, exc="plain"))
            cs.append(H.kwt(obs=ob, totals=((1,), (2, 1, 1)), scopes=name, script=scripts()[len(name) % 4], every=True, shared=True))
    T += H.chunk(cs, ONE, 24, "scopes-")
    # every kind of exception
    cs = []
    for ob in OBS:
        for name in exceptions():
            for depth in (0, 1, 30):
                cs.append(H.kwt(obs=ob, totals=((1,), (2, 1, 1)), scopes="plain", script=scripts()[3], every=True, exc=name, deepexc=depth))
        cs.append(H.kwt(obs=ob, totals=((1,), (140, 140)), scopes="plain", exc="each", every=False, script=many(140)))
        cs.append(H.kwt(obs=ob, totals=((1,), (300, 1)), scopes="plain", exc="plain", every=False, script=many(127)))
    T += H.chunk(cs, ONE, 8, "exceptions-")
    # encodings of the console; pages in files
    cs = []
    for ob in ("htmlstr", "htmlpath"):
        for sc in scripts():
            for name in ("str", "mixed", "surrogate", "unicode"):
                cs.append(H.kwt(obs=ob, totals=((1,), (2, 1, 1)), scopes=name, script=sc, every=True))
    for enc in ("ascii", "latin-1", "cp1252", "utf-8", "utf-16", "shift_jis", "cp437", "utf-8-sig", "iso2022_jp"):
        for name in cats:
            cs.append(H.kwt(obs="console", totals=((1,), (2, 1, 1)), scopes=name, script=scripts()[1], every=True, enc=enc))
        for name in exceptions():
            cs.append(H.kwt(obs="console", totals=((1,), (2, 1, 1)), scopes="plain", exc=name, script=scripts()[3], every=True, enc=enc))
    T += H.chunk(cs, ONE, 32, "encodings-")
    # equal scopes that are different objects; long times
    cs = []
    for ob in OBS:
        cs.append(H.kwt(obs=ob, totals=((1,), (2, 1, 1)), scopes="plain", alias=True, script=scripts()[1], every=True))
        for d in (12, 48, 60, 3600, 36000, 360000):
            for k in ("advance", "sleep")[: 1 + (d <= 60)]:
                cs.append(H.kwt(obs=ob, totals=((1,), (2, 1)), scopes="plain", script=(
                    ("total", 0), (k, d), ("running", 0), (k, d), ("completed", 0), (k, d), ("total", 1, 2), (k, d), ("running", 1), (k, d), ("running", 2),
                    (k, d), ("running", 1), (k, d), ("failed", 1), (k, d), ("completed", 2), (k, d), ("completed", 1), (k, d))))
        # more totals after a section was displayed as done
        for a in ("completed", "failed"):
            for gaps in itertools.product((False, True), repeat=3):
                g = [(("check",),) if x else () for x in gaps]
                for late in (1, 2):  # in the same scope, or in another one
                    cs.append(H.kwt(obs=ob, totals=((1,), (1, 1)), scopes="plain", script=(
                        ("total", 0), ("running", 0), ("completed", 0), ("total", 1), ("running", 1), (a, 1), *g[0], ("total", late), *g[1],
                        ("running", late), *g[2], ("completed", late))))
        for n in (100, 101, 150, 1000):  # a first rendering with everything done
            cs.append(H.kwt(obs=ob, totals=((1,), (n, 1)), scopes="plain", exc="plain", script=(("total", 0), ("running", 0), ("completed", 0), ("total", 1, 2)) + (
                ("running", 1), ("completed", 1)) * n + (("running", 2), ("failed", 2))))
    T += H.chunk(cs, ONE, 8, "misc-")
    # notifications from several threads racing with the update thread
    thr = []
    for ob in OBS[:2] if q else OBS:
        for tt in (((1,), (2, 1)), ((), (2,)), ((2,), (2, 2))):
            for time in (0, 1, 2):
                for f in (False, True):
                    thr.append(H.kwt(obs=ob, totals=tt, scopes="plain", threads=2, time=time, fails=f))
    T += H.chunk(thr, (H.B(2, 0, cap=600 if q else 20000), H.B(1, 0, b=1, ops="progress", cap=900 if q else 20000)), 1, "threads-")
    # whole runs
    runs = []
    i = 0
    for n in ("join", "fork", "parallel", "diamond", "chain3", "skip"):
        spec = plans.SHAPES[n]
        calls = [j for j, k in enumerate(spec[0]) if k == "c"]
        for fs in [()] + list(subsets(calls, 1, 1 if q else 2)):
            for me in (0, None) if fs else (0,):
                for ob in OBS:
                    i += 1
                    runs.append(H.kwt(spec=spec, W=2, out=c15.allp(spec), fail=tuple((("s", j), None) for j in fs), max_errors=me, reg=False, obs=ob,
                                      kinds=cats[i % len(cats)], enc=(None, "ascii", "utf-8")[i % 3] if ob == "console" else None))
    for n in ("src1", "chain", "fork", "join", "diamond", "litarg", "both"):
        spec = REGS[n]
        for x in states(spec):
            i += 1
            runs.append(H.kwt(spec=spec, state=x, W=2, out=c15.allp(spec), obs=OBS[i % len(OBS)], kinds=cats[i % len(cats)]))
    skip = ("control", "markup", "none")
    runs = [k for k in runs if dict(k)["kinds"] not in skip]
    T += H.chunk(runs, (H.B(0, 1, cap=12 if q else 400),), 8, "run-")
    # every sequence of notifications x every set of moments at which a rendering is due
    shapes = (((1,), (1,)), ((), (1, 1)), ((1,), (2,)), ((1, 1), ()), ((), (2, 1)), ((1,), (1, 1)), ((), (3,)), ((2,), (1,)))
    for ob in OBS:
        seqs = []
        for i, tt in enumerate(shapes):
            seqs.append(H.kwt(obs=ob, totals=tt, scopes="plain", time=1))
            seqs.append(H.kwt(obs=ob, totals=tt, scopes="plain", time=2, fails=bool(i % 2)))
            seqs.append(H.kwt(obs=ob, totals=tt, scopes="plain", time=1, unfinished=True, fails=False))
            seqs.append(H.kwt(obs=ob, totals=tt, scopes="plain", time=0))
            if tt[0] and tt[1]:
                seqs.append(H.kwt(obs=ob, totals=tt, scopes="plain", time=1, shared=True, fails=bool(i % 2)))
        cap = (1600, 300)[ob == "ipython"] if q else (60000, 20000)[ob == "ipython"]
        T += H.chunk(seqs, (H.B(0, None, cap=cap),), 1, f"seq-{ob}-")
    return T


def many(n):
    out = [("total", 0), ("running", 0), ("completed", 0), ("total", 1, 2)]
    for j in range(n):
        out += [("running", 1), ("failed", 1)]
        if j % 50 == 7:
            out += [("check",)]
    return tuple(out)


def free(r, tier, seed):
    """Real threads and the real clock, with tiny intervals."""
    global INIT, MIN, MAX
    INIT, MIN, MAX = 0.01, 0.001, 0.02
    cs = []
    for ob in OBS:
        for n in ("join", "diamond", "parallel"):
            spec = plans.SHAPES[n]
            for kinds in ("str", "objects", "unicode", "dates"):
                cs.append(H.kwt(spec=spec, W=3, out=c15.allp(spec), reg=False, obs=ob, kinds=kinds))
                cs.append(H.kwt(spec=spec, W=3, out=c15.allp(spec), reg=False, obs=ob, kinds=kinds, fail=((("s", 0), None),), max_errors=None))
    return H.free_traces(r, run_oracle, cs, make=RunCase)
