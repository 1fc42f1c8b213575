"""Regenerates MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCHED = "stateless model checking of the real thread pool under a controlled scheduler"
HIST = "explicit-state search over histories of real runs on logical-clock stores (fixpoint)"
ENUM = "exhaustive bounded enumeration of inputs/operations against the real code with a reference model as oracle"
T = {
    "C01": (SCHED, "Every schedule within the stated deviation bounds of every enumerated small call graph; assumes CPython 3.12 switch points."),
    "C02": (ENUM + "; schedules under the controlled scheduler", "Every expression program and output specification up to the stated size, compared with a reference interpreter."),
    "C03": (HIST, "Histories of every length for each enumerated small stored plan; deterministic calls and strictly increasing modified times as the property assumes."),
    "C04": (SCHED, "As C01, with every output specification of each graph."),
    "C05": (HIST, "Every reachable store state of each enumerated stored plan against a declarative out-of-date/demand oracle."),
    "C06": (SCHED, "All failing subsets of small graphs, exception kinds, error limits, within schedule bounds."),
    "C07": (SCHED + "; exhaustive enumeration of small cyclic graphs", "Deadlock, surviving threads and late events detected directly by the scheduler; all small cyclic graphs."),
    "C08": (HIST + " with a fault at every operation", "Every cut position of every run from every reachable state; process death for file stores."),
    "C09": (SCHED + " from every stale state of small stored plans", "Event order and value identity on every explored schedule."),
    "C10": (SCHED, "In-flight bounds, rendezvous parallelism, failure and attempt counts on every explored schedule."),
    "C11": ("exhaustive fault enumeration over every libc file operation of every write", "Each operation failed or the process killed at it, in forked children in scratch directories; power loss below the OS is out of scope."),
    "C12": (ENUM, "All code points and all small values of each domain through each store."),
    "C13": (HIST + "; concurrent runs under the controlled scheduler", "Structural snapshots before and after every run, dry run, render and copy explored."),
    "C14": (HIST, "In every reachable state: dry run, and execution of its plan compared with the real run."),
    "C15": (SCHED, "A notification automaton is checked on every explored schedule."),
    "C16": (SCHED, "Weak-reference liveness at every call boundary of every explored schedule."),
    "C17": (SCHED + " with KeyboardInterrupt injected at every point of the calling thread", "Every injection point within the stated bounds; real SIGINT in a subprocess as conformance."),
    "C18": (ENUM, "All combinations of time zone, instants around DST transitions and datetime representation in the stated grid."),
    "C19": (ENUM, "All nesting depths up to beyond the limit, all ways of creating a symbolic call, all failure phases."),
    "C20": ("explicit-state enumeration of notification sequences and clock/render points on the real observers", "All legal sequences to the stated depth, over hostile scopes and exceptions."),
}
checks = []
na = []
for pid, (tech, note) in T.items():
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    level = [l.split('"')[1] for l in open(f) if l.startswith("LEVEL")][0]
    checks.append({
        "property": pid, "quick_cmd": f"{PY} checks/main.py {pid}", "thorough_cmd": f"{PY} checks/main.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": level, "level_note": note,
    })
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run the real code of /repo/src; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
