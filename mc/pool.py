"""Fork-based task pool with crash and hang containment.  A task is an index into the check's task list."""
import os
import pickle
import selectors
import signal
import struct
import sys
import time
import traceback

_perf = time.perf_counter  # bound before or after patching: outside controlled threads both are the real clock


class Worker:
    def __init__(self, pool):
        r, w = os.pipe()
        cr, cw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(cw)
            for o in pool.workers:
                os.close(o.r)
                os.close(o.cw)
            try:
                pool._child(cr, w)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        os.close(cr)
        self.pid, self.r, self.cw = pid, r, cw
        self.buf = b""
        self.task = None
        self.since = 0.0


class Pool:
    """run(fn, tasks): yields (index, result) in completion order; result is ('ok', obj) | ('err', text) | ('dead', text)."""

    def __init__(self, fn, tasks, *, procs=None, deadline=None, task_limit=120.0, init=None):
        self.fn, self.tasks = fn, tasks
        self.procs = procs or min(os.cpu_count() or 4, 8)
        self.deadline = deadline
        self.task_limit = task_limit
        self.init = init
        self.workers = []
        self.skipped = 0

    def _child(self, cr, w):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        if self.init:
            self.init()
        while True:
            b = os.read(cr, 4)
            if len(b) < 4:
                return
            (i,) = struct.unpack("<I", b)
            die = False
            try:
                res = ("ok", self.fn(self.tasks[i]))
            except BaseException as e:
                res = ("err", "".join(traceback.format_exception(e)))
                die = type(e).__name__ == "Hang"
            data = pickle.dumps((i, res))
            data = struct.pack("<I", len(data)) + data
            while data:
                n = os.write(w, data)
                data = data[n:]
            if die:
                return

    def run(self):
        todo = list(range(len(self.tasks)))[::-1]
        sel = selectors.DefaultSelector()

        def spawn():
            w = Worker(self)
            self.workers.append(w)
            sel.register(w.r, selectors.EVENT_READ, w)
            return w

        def feed(w):
            if todo and (self.deadline is None or _perf() < self.deadline):
                w.task = todo.pop()
                w.since = _perf()
                try:
                    os.write(w.cw, struct.pack("<I", w.task))
                except OSError:
                    todo.append(w.task)
                    w.task = None
            else:
                w.task = None

        def retire(w):
            sel.unregister(w.r)
            self.workers.remove(w)
            os.close(w.r)
            os.close(w.cw)
            try:
                os.kill(w.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(w.pid, 0)

        try:
            for _ in range(min(self.procs, len(self.tasks))):
                feed(spawn())
            while any(w.task is not None for w in self.workers):
                for key, _ in sel.select(1.0):
                    w = key.data
                    chunk = os.read(w.r, 1 << 20)
                    if not chunk:
                        t = w.task
                        retire(w)
                        if t is not None:
                            yield t, ("dead", "worker process died")
                        if todo:
                            feed(spawn())
                        continue
                    w.buf += chunk
                    while len(w.buf) >= 4:
                        (n,) = struct.unpack("<I", w.buf[:4])
                        if len(w.buf) < 4 + n:
                            break
                        i, res = pickle.loads(w.buf[4: 4 + n])
                        w.buf = w.buf[4 + n:]
                        w.task = None
                        yield i, res
                        feed(w)
                now = _perf()
                for w in list(self.workers):
                    over = self.deadline is not None and now > self.deadline + 20
                    if w.task is not None and (now - w.since > self.task_limit or over):
                        t = w.task
                        retire(w)
                        yield t, ("dead", f"task exceeded {now - w.since:.0f} s")
                        if todo and not over:
                            feed(spawn())
            self.skipped = len(todo)
        finally:
            for w in list(self.workers):
                retire(w)
