From df83dbfb8462cb113a058017cf6d90d35cd70ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 01/14] fix: allow keyword arguments named self, fn and
 stack_frame in Plan.call

Plan._call and assert_can_bind took their own parameters by name as well as
by position, so a keyword argument of the user's function with one of those
names made Plan.call raise TypeError.
---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..ade5ef3 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From 8ee6365c622fec3adfff365913960291d6a33369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:22 +0000
Subject: [PATCH 02/14] fix: report dependency cycles that consist only of
 literals

Pruning trivial literals removed a cycle of literals without a trace, so the
run silently ignored it. Keep a literal that depends on itself, so that the
acyclicity check sees the cycle.
---
 src/uberjob/_transformations/pruning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..a0f650e 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -49,7 +49,8 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     """
     Prunes the literal if:
     a) it is not an argument to any function, and
-    b) removing it does not increase the number of dependencies in the graph.
+    b) removing it does not increase the number of dependencies in the graph, and
+    c) it does not depend on itself, so that removing it does not hide a cycle.
     """
     if not all(
         type(dependency) is Dependency
@@ -60,6 +61,9 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     predecessors = list(plan.graph.predecessors(literal))
     successors = list(plan.graph.successors(literal))
 
+    if literal in predecessors:
+        return
+
     m = len(predecessors)
     n = len(successors)
 
-- 
2.43.0


From d40b8f09072c1b2c36f5c54e0435cd49440ed201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 03/14] fix: do not hang when starting the worker threads is
 interrupted or fails

If a thread could not be started, or KeyboardInterrupt arrived while the
threads were being started, worker_pool joined the threads that were already
running without ever telling them to stop, and run hung. Start the workers
inside the try block that stops them, and let them process nodes only once all
of them have started, so that an interruption always finds all of them.
---
 .../_execution/run_function_on_graph.py       | 37 ++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..2944c67 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,7 +16,6 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
-from contextlib import contextmanager
 from typing import NamedTuple
 
 from uberjob._errors import NodeError
@@ -53,8 +52,9 @@ def thread(fn):
 DONE = object()
 
 
-def worker_thread(queue, process_item):
+def worker_thread(queue, process_item, ready):
     def process_items():
+        ready.wait()
         while True:
             item = queue.get()
             try:
@@ -67,18 +67,6 @@ def worker_thread(queue, process_item):
     return thread(process_items)
 
 
-@contextmanager
-def worker_pool(queue, process_item, worker_count):
-    workers = []
-    try:
-        for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
-        yield
-    finally:
-        for worker in workers:
-            worker.join()
-
-
 class PreparedNodes(NamedTuple):
     source_nodes: list[Node]
     single_parent_nodes: set[Node]
@@ -154,13 +142,20 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
-            for _ in range(worker_count):
-                queue.put(DONE)
+    workers = []
+    ready = threading.Event()  # No node is processed until every worker has started.
+    try:
+        for _ in range(worker_count):
+            workers.append(worker_thread(queue, process_node, ready))
+        ready.set()
+        queue.join()
+    finally:
+        stop = True
+        for _ in range(worker_count):
+            queue.put(DONE)
+        ready.set()
+        for worker in workers:
+            worker.join()
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From faa5417e80562543d0309657b14b471824bbeb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 04/14] fix: remove the staging file when renaming it onto the
 target fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From 4e1ec707451f32a17bb0e38bb0bdb0915373fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 05/14] fix: read back carriage returns written to a
 TextFileStore

---
 src/uberjob/stores/_text_file_store.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..8a66019 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,7 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(self.path, encoding=self.encoding, newline="") as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From 06ebf81a8f7611ca606d35b7b4e8a0d0cf5826a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 06/14] fix: read naive datetimes as local time when deciding
 staleness

Naive modified times (as the file stores produce) and a naive fresh_time were
compared as they are with timezone-aware ones converted to UTC, and the repeated
hour of a DST fall-back was misordered.
---
 src/uberjob/_transformations/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..f7d935f 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,14 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        # A naive value is read as local time.
+        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
+    except (OverflowError, ValueError):
+        # Too close to datetime.min or datetime.max to be shifted by a UTC offset.
+        return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From 0828df7c3473f1796e1ab9977867d6f64be837e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 07/14] fix: attribute a failure to gather the output to the
 caller of run

The symbolic traceback started at a line of uberjob/_run.py.
---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From 03d2e6684bcb7c301db1f914ea5e32b577336849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 08/14] fix: raise CallError when a literal's modified time
 cannot be examined

CallError was given the literal and failed with AttributeError.
---
 src/uberjob/_transformations/caching.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index f7d935f..841dc9e 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -124,7 +124,17 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except BaseException as exception:
+                # Only a value store can fail here, and a literal is not a call that could be blamed for it.
+                registry_value = registry.mapping[node]
+                call = Call(
+                    registry_value.value_store.__class__.get_modified_time,
+                    scope=node.scope,
+                    stack_frame=registry_value.stack_frame,
+                )
+                raise NodeError(call) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
-- 
2.43.0


From 98f13ae70e4245a9c92d7d4811d8d60d7a95d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 09/14] fix: render scope values that cannot be ordered or
 converted to str

The progress update thread died, although Plan.scope only asks for hashable and
equatable values.
---
 .../progress/_simple_progress_observer.py     | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..cd9a1a0 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -24,12 +24,31 @@ def _universal_sort_key(*args):
     return tuple((str(type(x)), x) for x in args)
 
 
+def _unordered_sort_key(*args):
+    return tuple((str(type(x)), _get_value_string(x)) for x in args)
+
+
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    try:
+        return sorted(
+            scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])
+        )
+    except Exception:
+        # Scope values have to be hashable and equatable but not orderable.
+        return sorted(
+            scope_dict.items(), key=lambda pair: _unordered_sort_key(*pair[0])
+        )
+
+
+def _get_value_string(value):
+    try:
+        return str(value)
+    except Exception:
+        return object.__repr__(value)
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-    scope_string = ", ".join(str(value) for value in scope)
+    scope_string = ", ".join(_get_value_string(value) for value in scope)
     if add_zero_width_spaces:
         scope_string = scope_string.replace(".", "\u200B.")
     return scope_string
-- 
2.43.0


From f023ae834fd044b8fdea19b9fc36a2af05899d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 10/14] fix: display progress that the output encoding cannot
 represent

The progress update thread died on lone surrogates and, for the console, on
characters missing from the encoding of stdout.
---
 src/uberjob/progress/_console_progress_observer.py | 8 +++++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..32e9c15 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 #
 import datetime as dt
+import sys
 import textwrap
 import traceback
 from functools import partial
@@ -109,4 +110,9 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError:
+            encoding = sys.stdout.encoding
+            value = value.encode(encoding, "backslashreplace").decode(encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..fc057cd 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="backslashreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From a5adbca6f2cf8a065b584a70a62f0e60e162c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 11/14] fix: display exceptions that the traceback module fails
 to format

The progress update thread died, for example on a SyntaxError with malformed
details.
---
 src/uberjob/progress/_console_progress_observer.py |  4 ++--
 src/uberjob/progress/_html_progress_observer.py    |  4 ++--
 src/uberjob/progress/_ipython_progress_observer.py |  4 ++--
 src/uberjob/progress/_simple_progress_observer.py  | 11 +++++++++++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 32e9c15..11d818f 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -16,12 +16,12 @@
 import datetime as dt
 import sys
 import textwrap
-import traceback
 from functools import partial
 from io import StringIO
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
+    format_exception_tuple,
     get_elapsed_string,
     get_scope_string,
     sorted_scope_items,
@@ -70,7 +70,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
             )
             print_(
                 textwrap.indent(
-                    "".join(traceback.format_exception(*exception_tuple)),
+                    format_exception_tuple(exception_tuple),
                     prefix=" " * 4,
                 )
             )
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index fc057cd..3cb62ca 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -15,13 +15,13 @@
 #
 import datetime as dt
 import pathlib
-import traceback
 from collections.abc import Callable
 from html import escape
 
 from uberjob.progress._simple_progress_observer import (
     ScopeState,
     SimpleProgressObserver,
+    format_exception_tuple,
     get_elapsed_string,
     get_scope_string,
     sorted_scope_items,
@@ -186,7 +186,7 @@ def _render_exception_tuples(exception_tuples):
 def _render_exception_tuple(i, scope, exception_tuple):
     show = "show" if i == 0 else ""
     collapsed = "collapsed" if i != 0 else ""
-    exception_tuple_str = "".join(traceback.format_exception(*exception_tuple))
+    exception_tuple_str = format_exception_tuple(exception_tuple)
     return f"""
         <div class="accordion-item">
           <h2 class="accordion-header" id="heading{i}">
diff --git a/src/uberjob/progress/_ipython_progress_observer.py b/src/uberjob/progress/_ipython_progress_observer.py
index 0fa4870..d807049 100644
--- a/src/uberjob/progress/_ipython_progress_observer.py
+++ b/src/uberjob/progress/_ipython_progress_observer.py
@@ -15,10 +15,10 @@
 #
 import datetime as dt
 import html
-import traceback
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
+    format_exception_tuple,
     get_elapsed_string,
     get_scope_string,
     sorted_scope_items,
@@ -133,7 +133,7 @@ class IPythonProgressObserver(SimpleProgressObserver):
             exception_text_widget = self._get("exception_text", i, default=widgets.HTML)
             exception_text_widget.value = (
                 '<pre style="line-height: 120%">{}</pre>'.format(
-                    html.escape("".join(traceback.format_exception(*exception_tuple)))
+                    html.escape(format_exception_tuple(exception_tuple))
                 )
             )
             exception_text_widgets.append(exception_text_widget)
diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index cd9a1a0..0ad4f68 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -15,6 +15,7 @@
 #
 import threading
 import time
+import traceback
 from abc import ABC, abstractmethod
 
 from uberjob.progress._progress_observer import ProgressObserver
@@ -54,6 +55,16 @@ def get_scope_string(scope, *, add_zero_width_spaces=False):
     return scope_string
 
 
+def format_exception_tuple(exception_tuple):
+    try:
+        return "".join(traceback.format_exception(*exception_tuple))
+    except Exception:
+        # Exceptions may carry attributes that traceback cannot handle.
+        exception_type, _, tb = exception_tuple
+        lines = traceback.format_tb(tb)
+        return "".join([*lines, f"{exception_type.__qualname__}: <unprintable>\n"])
+
+
 def _get_progress_string(*, completed, failed, running, total):
     all_done = completed + failed == total
     started = completed + failed + running > 0
-- 
2.43.0


From d44217c5c0c59a189e725c06c724913898aea12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 12/14] fix: raise the failure of a call whose scope cannot be
 shown by reprlib

Creating the NodeError raised in the worker, which died, so that run returned
normally.
---
 src/uberjob/_util/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index c432564..cfa3d5f 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -30,7 +30,16 @@ def is_ipython():
         return False
 
 
-compact_repr = Repr()
+class CompactRepr(Repr):
+    def repr1(self, x, level):
+        try:
+            return super().repr1(x, level)
+        except Exception:
+            # Not every object has a repr; Repr itself only expects that of some types.
+            return object.__repr__(x)
+
+
+compact_repr = CompactRepr()
 compact_repr.maxstring = 80
 compact_repr.maxother = 80
 compact_repr = compact_repr.repr
-- 
2.43.0


From 4564c9a2b2bd9797a422a71f46023fe9bc09a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 13/14] fix: render scope values of types that cannot be
 converted to str

---
 src/uberjob/progress/_simple_progress_observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 0ad4f68..5f46b9f 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -26,7 +26,7 @@ def _universal_sort_key(*args):
 
 
 def _unordered_sort_key(*args):
-    return tuple((str(type(x)), _get_value_string(x)) for x in args)
+    return tuple((_get_value_string(type(x)), _get_value_string(x)) for x in args)
 
 
 def sorted_scope_items(scope_dict):
-- 
2.43.0


From cff76dec586b8a81a2c1765717c612335d832f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 14/14] fix: display a section on the console that got more
 work after it was done

---
 src/uberjob/progress/_console_progress_observer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 11d818f..44c4f00 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -87,7 +87,7 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             min_update_interval=min_update_interval,
             max_update_interval=max_update_interval,
         )
-        self._skipped_sections = set()
+        self._skipped_sections = {}  # The totals with which sections were shown as done.
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
         with StringIO() as buffer:
@@ -100,12 +100,11 @@ class ConsoleProgressObserver(SimpleProgressObserver):
                         s.completed + s.failed == s.total
                         for s in scope_mapping.values()
                     )
-                    if not is_done or section not in self._skipped_sections:
+                    total = sum(s.total for s in scope_mapping.values())
+                    if not is_done or self._skipped_sections.get(section) != total:
                         _print_section(print_, section, scope_mapping)
                     if is_done:
-                        self._skipped_sections.add(section)
-                    else:
-                        self._skipped_sections.discard(section)
+                        self._skipped_sections[section] = total
             _print_new_exceptions(print_, new_exception_index, exception_tuples)
             return buffer.getvalue()
 
-- 
2.43.0

