"""Run one property check: enumerate its tasks on all cores, compare with known findings, report.

usage: python -m mc.runner ID [quick|thorough] [--replay FILE]
exit 0: held on everything explored (listed known findings are printed); exit 1: VIOLATION lines.
"""

from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TASK_LIMIT_S = {"quick": 150, "thorough": 1800}
MAX_REPORT = int(os.environ.get("MC_MAX_REPORT", 10))
STOP_AFTER = int(os.environ.get("MC_STOP_AFTER", 25))


class TaskTimeout(BaseException):
    pass


class Rec:
    """What one task covered.  ``states``/``transitions`` count the explored model, ``traces`` the
    model edges (or executions) replayed on the implementation."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.extra = {}
        self.samples = []
        self.bad = []

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def model(self, states, transitions, replays=1):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(transitions) * int(replays)
        self.evals += 1

    def violation(self, key, msg, **detail):
        self.bad.append({"key": str(key), "message": str(msg), "detail": detail})

    def sample(self, text):
        if len(self.samples) < 1:
            self.samples.append(text)


def load(pid):
    return importlib.import_module(f"mc.props.{pid.lower()}")


def _alarm(signum, frame):
    raise TaskTimeout()


def _run_task(args):
    pid, tier, index, task = args
    mod = load(pid)
    rec = Rec()
    signal.signal(signal.SIGALRM, _alarm)
    limit = TASK_LIMIT_S.get(tier, 150)
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.check(task, rec)
    except TaskTimeout:
        rec.violation(f"task={task!r}", f"no answer within {limit} s")
    except Exception:
        rec.violation(f"task={task!r}", "unexpected exception: " + traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec.wall = time.time() - t0
    return index, rec


def known_findings(pid):
    out = set()
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING:"):
                    head, _, _ = line.partition(" :: ")
                    parts = head.split(None, 2)
                    if len(parts) == 3 and parts[1] == f"property={pid}" and parts[2].startswith("key="):
                        out.add(parts[2][4:].strip())
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    t0 = time.time()
    if replay:
        with open(replay) as f:
            tasks = [eval(json.load(f)["task"], {"Fraction": __import__("fractions").Fraction})]
    else:
        tasks = list(mod.tasks(tier))
    jobs = [(pid, tier, i, t) for i, t in enumerate(tasks)]
    total = Rec()
    bad = []
    known = known_findings(pid)
    hit = {}
    nproc = min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1)), max(1, len(jobs)))
    stopped = False
    samples = []
    slowest = 0.0
    with get_context("fork").Pool(nproc) as pool:
        for index, rec in pool.imap_unordered(_run_task, jobs, chunksize=getattr(mod, "CHUNK", 1)):
            total.states += rec.states
            total.transitions += rec.transitions
            total.traces += rec.traces
            total.evals += rec.evals
            for k, v in rec.extra.items():
                total.extra[k] = total.extra.get(k, 0) + v
            slowest = max(slowest, rec.wall)
            if rec.samples:
                samples.append((index, rec.samples[0]))
            for b in rec.bad:
                b["task"] = repr(tasks[index])
                if b["key"] in known:
                    hit[b["key"]] = b["message"]
                else:
                    bad.append(b)
            if bad and (len(bad) >= STOP_AFTER or time.time() - t0 > 240) and not replay:
                stopped = True
                pool.terminate()
                break
    wall = time.time() - t0

    samples.sort()
    step = max(1, len(samples) // 8)
    cov = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "evaluations": total.evals,
        "distinct_nontrivial": total.extra.pop("nontrivial", total.evals),
        "rule": getattr(mod, "RULE", ""),
        "samples": [s for _, s in samples[::step][:8]] or ["(none: stopped at a violation)"],
        "tasks": len(tasks),
        "slowest_task_s": round(slowest, 2),
        "exhaustive": not stopped,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else "",
    }
    cov.update({k: v for k, v in sorted(total.extra.items())})
    evidence = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")

    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} key={k} :: {hit[k]}")
    print(
        f"{pid} {tier}: {len(tasks)} tasks, {total.evals} implementation calls, {total.states} states, "
        f"{total.transitions} transitions, {total.traces} replayed, {len(hit)} known findings, "
        f"{len(bad)} violations, {wall:.1f} s"
    )
    if not bad:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, b in enumerate(bad[:MAX_REPORT]):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **b), f, indent=1, default=str)
            f.write("\n")
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {b['key']}: {b['message']}".replace(chr(10), ' | ')[:700])
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
