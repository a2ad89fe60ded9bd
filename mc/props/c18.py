"""C18: calls are independent of history: every result depends on the arguments only."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np

from mc import calls

RULE = (
    "one case = one sequence of calls made in a process that has only imported the library; after every call: result equal to that of a fresh "
    "process, arguments untouched, interpreter-wide settings untouched, earlier results untouched"
)
CHUNK = 1
MODES = ("keep", "scribble", "reuse")
CORE = (
    "sg P222 k=0", "sg P212121 k=0", "sg P212121 k=R", "sg P212121 k=R random", "sg P212121 k=R real", "sg P212121 reversed k=R",
    "sg bad method", "pg 4", "pg 4 rolled", "pg spin 4 flipped", "msg k=Z", "crystal I", "chain m", "project other",
)


def bounds(tier):
    n = len(calls.build())
    return (f"all sequences of length <= {2 if tier == 'quick' else 3} over {n} calls and of length <= {3 if tier == 'quick' else 4} over {len(CORE)} of them, in 3 modes "
            "(results kept, results overwritten by the caller, argument arrays reused by the caller); each call in fresh interpreters with 4 hash seeds, "
            "4 states of the global random generators, 2 numpy error settings")


def tasks(tier):
    names = list(calls.build())
    out = [("fresh", s, tier) for s in range(4)]
    out += [("seq", mode, n, "core", tier) for mode in MODES for n in CORE]
    out += [("seq", mode, n, "all", tier) for mode in MODES for n in names]
    return out


def settings():
    return (
        np.random.get_state()[1].tolist(), np.random.get_state()[2:], random.getstate(), np.geterr(), list(map(str, warnings.filters)),
        str(np.get_printoptions()), dict(os.environ), os.getcwd(), sys.getrecursionlimit(),
    )


def child(fn):
    """Run fn in a forked process and return its JSON-able value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                v = fn()
            except BaseException as e:  # noqa: BLE001
                v = {"n": 0, "bad": [("harness", repr(e))]}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {"n": 0, "bad": [("harness", "child died")]}


_REF = {}


def reference(name):
    """Frozen outcome of the call in a process that has made no other call (tuples become lists)."""
    if name not in _REF:
        _REF[name] = child(lambda: jsonable(calls.execute(calls.build()[name])[:2]))
    return _REF[name]


def jsonable(x):
    if isinstance(x, tuple):
        return {"t": [jsonable(y) for y in x]}
    if isinstance(x, list):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[jsonable(k), jsonable(v)] for k, v in x.items()]}
    if isinstance(x, complex):
        return {"c": [x.real, x.imag]}
    return x


def unjson(x):
    if isinstance(x, list):
        return [unjson(y) for y in x]
    if isinstance(x, dict):
        if "t" in x:
            return tuple(unjson(y) for y in x["t"])
        if "c" in x:
            return complex(*x["c"])
        return {unjson(k): unjson(v) for k, v in x["d"]}
    return x


_BUF = {}


def prepare(entry, mode):
    """Arguments of the call; in mode reuse the caller writes them into arrays it passed before."""
    import copy

    f, a, k = entry
    a, k = copy.deepcopy(a), copy.deepcopy(k)
    if mode != "reuse":
        return a, k

    def sub(x):
        if isinstance(x, np.ndarray):
            b = _BUF.setdefault((x.shape, x.dtype.str), np.zeros_like(x))
            if any(b is y for y in used):
                return x  # two arguments of the same shape in one call
            used.append(b)
            b[...] = x
            return b
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        if isinstance(x, list):
            return [sub(y) for y in x]
        return x

    used = []
    return sub(a), {n: sub(v) for n, v in k.items()}


def step(name, mode, kept):
    """One call with all checks: message or None."""
    entry = calls.build()[name]
    a, k = prepare(entry, mode)
    before = calls.freeze((a, k))
    env = settings()
    status, value, raw = calls.execute(entry, a, k)
    if settings() != env:
        s, t = env, settings()
        which = ["numpy random state", "numpy random state", "random state", "numpy error settings", "warning filters", "print options",
                 "environment", "directory", "recursion limit"]
        return f"changes {[which[i] for i in range(len(s)) if s[i] != t[i]]}"
    if calls.freeze((a, k)) != before:
        return "changes its arguments"
    ref = unjson(reference(name))
    if (status, value) != ref:
        if status != ref[0]:
            return f"outcome {status} {value if status == 'raise' else ''} instead of {ref[0]} {ref[1] if ref[0] == 'raise' else ''}"
        m = calls.differ(ref[1], value)
        if m:
            return m
    if mode != "reuse" or True:
        for nm, obj, was in kept:
            if calls.freeze(obj) != was:
                return f"overwrites the result of the earlier call '{nm}'"
    if raw is not None:
        for p, x in calls.arrays(raw):
            for q, y in calls.arrays((a, k)):
                if x.size and np.shares_memory(x, y):
                    return f"result{p} shares memory with the argument {q}"
        if mode == "scribble":
            for _, x in calls.arrays(raw):
                if x.flags.writeable and x.size:
                    x[...] = 7 if x.dtype.kind != "b" else True
            for n, y in list(walk_lists(raw)):
                y.clear()
            if calls.freeze((a, k)) != before:
                return "result shares memory with the arguments"
        else:
            kept.append((name, raw, calls.freeze(raw)))
    return None


def walk_lists(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from walk_lists(y)
        if isinstance(x, list):
            yield "", x


def explore(history, alphabet, mode, depth, kept):
    """Execute the last call of history here, then every continuation in its own process."""
    bad, n = [], 1
    msg = step(history[-1], mode, kept)
    if msg:
        return {"n": 1, "bad": [(" ; ".join(history), msg)]}
    if depth > 1:
        for nxt in alphabet:
            r = child(lambda: explore(history + [nxt], alphabet, mode, depth - 1, kept))
            n += r["n"]
            bad += r["bad"]
            if len(bad) >= 3:
                break
    return {"n": n, "bad": bad}


FRESH = r"""
import json, random, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
from mc import calls
from mc.props.c18 import jsonable
s = int(sys.argv[1])
np.random.seed(100 + s); random.seed(s)
if s % 2: np.seterr(all="raise", under="ignore")
order = list(calls.build().items())
if s in (1, 2): order = order[::-1]
print(json.dumps({k: jsonable(calls.execute(e)[:2]) for k, e in order}))
"""


def check(task, rec):
    import spgrep.core  # noqa: F401  (imported, nothing called)
    import spgrep.tensor, spgrep.corep, spgrep.transform  # noqa: F401,E401

    names = list(calls.build())
    for n in names:
        reference(n)
    if task[0] == "fresh":
        env = dict(os.environ, PYTHONHASHSEED=str(task[1] * 7919))
        p = subprocess.run([sys.executable, "-c", FRESH, str(task[1])], env=env, capture_output=True, text=True)
        if p.returncode:
            rec.violation(f"fresh interpreter {task[1]}", p.stderr[-400:])
            return
        got = json.loads(p.stdout.strip().splitlines()[-1])
        for n in names:
            a, b = unjson(reference(n)), unjson(got[n])
            rec.model(1, 1)
            m = f"outcome {b[0]} instead of {a[0]}" if a[0] != b[0] else calls.differ(a[1], b[1]) if a[0] == "ok" else None
            if m:
                rec.violation(f"call '{n}' in a fresh interpreter, hash seed {task[1] * 7919}", m)
        return
    _, mode, first, which, tier = task
    alphabet = CORE if which == "core" else names
    depth = (3 if which == "core" else 2) + (tier == "thorough")
    r = child(lambda: explore([first], list(alphabet), mode, depth, []))
    rec.model(r["n"], r["n"])
    rec.evals += r["n"] - 1
    rec.count("nontrivial", r["n"])
    for hist, msg in r["bad"]:
        rec.violation(f"mode={mode} history=[{hist}]", msg)
    rec.sample(f"mode={mode}, all histories of length <= {depth} starting with '{first}': {r['n']} calls")
