"""Check driver: runs a check's tasks in a process pool, aggregates, writes evidence, prints the verdict."""
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

from mc import boot

VERIF = boot.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

QUICK_S = 240.0
THOROUGH_S = float(os.environ.get("MC_THOROUGH_S", "820"))
_now = time.monotonic


class R:
    """The result of one task (picklable)."""

    def __init__(self):
        self.n = collections.Counter()
        self.viol = []
        self.samples = []
        self.distinct = set()
        self.mx = {}
        self.notes = set()

    def violation(self, msg, key=None, **data):
        if len(self.viol) < 5:
            self.viol.append({"msg": msg, "key": key or msg, "data": data})
        self.n["violations"] += 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def max(self, k, v):
        if v > self.mx.get(k, float("-inf")):
            self.mx[k] = v

    def seen(self, obj):
        self.distinct.add(hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def absorb(self, o):
        self.n.update(o.n)
        self.viol.extend(o.viol)
        self.distinct |= o.distinct
        self.notes |= o.notes
        for k, v in o.mx.items():
            self.max(k, v)


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def write_replay(pid, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.blake2b(json.dumps(v, default=repr, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(REPLAYS, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **v}, f, indent=1, default=repr)
    return path


def main(argv):
    boot.reexec()
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    if "--free" in argv:
        return _free(mod, tier, seed)
    t0 = _now()
    boot.boot(sched=getattr(mod, "SCHED", True))
    if hasattr(mod, "setup"):
        mod.setup()
    if "--replay" in argv:
        return _replay(mod, pid, argv[argv.index("--replay") + 1])
    from mc.pool import Pool

    budget = QUICK_S if tier == "quick" else THOROUGH_S
    budget = getattr(mod, "BUDGET", {}).get(tier, budget)
    tasks = list(mod.tasks(tier, seed))
    run_task = mod.run_task
    if getattr(mod, "SCHED", True):
        from mc import scale

        tasks[len(tasks) // 2:len(tasks) // 2] = scale.tasks(pid, tier)  # in the middle: they are the longest ones
        run_task = lambda t: scale.run_task(pid, t) if t[0] == "scale" else mod.run_task(t)  # noqa: E731
    if "--task" in argv:
        tasks = [tasks[int(argv[argv.index("--task") + 1])]]
    free_proc = None
    if hasattr(mod, "free") and "--nofree" not in argv:
        free_proc = subprocess.Popen(
            [sys.executable, "-B", *sys.argv, "--free", "--tier", tier],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, "VERIF_TIER": tier},
        )
    total = R()
    samples = []
    errors = []
    verbose = "-v" in argv
    pool = Pool(run_task, tasks, deadline=_now() + budget, task_limit=getattr(mod, "TASK_LIMIT", 300.0))
    done = 0
    t_first = None  # when the first violation was found: the verdict is clear, so do not go on for long
    stopped = False
    for i, (st, res) in pool.run():
        done += 1
        if st == "ok":
            total.absorb(res)
            for s in res.samples:
                if len(samples) < 8:
                    samples.append(s)
            for v in res.viol:
                v.setdefault("task", tasks[i])
            if verbose:
                print(f"[{_now()-t0:6.1f}] task {i} {str(tasks[i])[:100]} {dict(res.n)}", flush=True)
        else:
            errors.append((i, st, res))
            if verbose:
                print(f"task {i} {tasks[i]!r} {st}: {res}", flush=True)
            if hasattr(mod, "on_error"):
                r = R()
                mod.on_error(r, tasks[i], st, res)
                for v in r.viol:
                    v.setdefault("task", tasks[i])
                total.absorb(r)
        if total.viol and t_first is None:
            t_first = _now()
        if len({v["key"] for v in total.viol}) >= 25 or t_first is not None and _now() - t_first > 20 and not known()["findings"]:
            stopped = True
            break
    skipped = pool.skipped
    free_n = 0
    if free_proc is not None and stopped:
        free_proc.kill()
        free_proc.wait()
    elif free_proc is not None:
        try:
            out, err = free_proc.communicate(timeout=max(30.0, budget + 60 - (_now() - t0)))
            fr = json.loads(out.decode().strip().splitlines()[-1])
            free_n = fr["traces"]
            for v in fr["viol"]:
                v.setdefault("task", "free")
                total.viol.append(v)
            if fr.get("errors"):
                errors.append((-1, "free", fr["errors"]))
        except Exception as e:
            free_proc.kill()
            errors.append((-1, "free", repr(e)))
    # ---- verdict
    kn = {(f["property"], f["key"]): f for f in known()["findings"]}
    bad = {}
    shown = set()
    for v in total.viol:
        k = (pid, v["key"])
        if k in kn:
            if k not in shown:
                shown.add(k)
                print(f"KNOWN-FINDING: property={pid} {kn[k]['what']}")
            continue
        bad.setdefault(v["key"], v)
    for k in [f for f in kn if f[0] == pid and f not in shown]:
        # A listed finding that the run did not reproduce is still a listed finding.
        print(f"KNOWN-FINDING: property={pid} {kn[k]['what']}")
    wall = round(_now() - t0, 2)
    cov = {
        "tasks": len(tasks), "tasks_done": done, "tasks_skipped": skipped, "task_errors": len(errors),
        "exhaustive": not skipped and not errors and not total.n.get("capped"),
        **{k: v for k, v in sorted(total.n.items())},
        **{f"max_{k}": v for k, v in sorted(total.mx.items())},
        "samples": samples[:8] or ["(none)"],
    }
    if total.notes:
        cov["notes"] = sorted(total.notes)
    cov.update(mod.coverage(total, tier) if hasattr(mod, "coverage") else {})
    if "transitions" in cov:  # each count under one name
        for k in ("steps", "choice_points", "executions"):
            cov.pop(k, None)
    if mod.LEVEL == "model_checking":
        cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + free_n
        cov["free_running_traces"] = free_n
    if errors:
        cov["error_samples"] = [str(e)[:400] for e in errors[:3]]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(
            {
                "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
                "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(bad),
            },
            f, indent=1, default=repr,
        )
    for k, v in list(bad.items())[:10]:
        path = write_replay(pid, v)
        print(f"VIOLATION property={pid} replay={path}")
        print("  " + str(v["msg"])[:600])
    print(f"{pid} {tier}: tasks={done}/{len(tasks)} skipped={skipped} errors={len(errors)} violations={len(bad)} "
          f"wall={wall}s {dict(total.n)}")
    if errors:
        print("  error sample:", str(errors[0])[-500:])
    sys.stdout.flush()
    if not bad and len(errors) * 2 > max(1, len(tasks)):
        return 2  # no answer
    return 1 if bad else 0


def _free(mod, tier, seed):
    boot.boot(sched=False)
    if hasattr(mod, "setup"):
        mod.setup()
    r = R()
    err = None
    n = 0
    try:
        n = mod.free(r, tier, seed)
    except BaseException as e:
        import traceback
        err = "".join(traceback.format_exception(e))[-800:]
    print(json.dumps({"traces": n, "viol": r.viol, "errors": err}, default=repr))
    sys.stdout.flush()
    os._exit(0)


def _replay(mod, pid, path):
    with open(path) as f:
        v = json.load(f)
    r = R()
    if "scale" in v["data"]:
        import ast

        from mc import scale

        r = scale.run_task(pid, ast.literal_eval(v["data"]["scale"]))
    elif hasattr(mod, "replay"):
        mod.replay(r, v)
    else:
        r = mod.run_task(_tuplify(v["task"]))
    for x in r.viol:
        print(f"VIOLATION property={pid} replay={path}")
        print("  " + x["msg"])
    if not r.viol:
        print("not reproduced")
    return 1 if r.viol else 0


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(i) for i in x)
    return x
