"""C19: calls made from several threads give the results they give alone."""
from __future__ import annotations

import copy
import ctypes
import dis
import multiprocessing
import os
import random
import sys
import threading
import types
import warnings
from functools import lru_cache

import numpy as np

from mc import calls
from mc.props.c18 import child, reference, unjson

RULE = (
    "one case = one schedule of two calls in two threads: the first is stopped before a chosen line of the library, the second runs (to its end, or up "
    "to a chosen line, then the first is finished first); both results must be those of the calls made alone"
)
CHUNK = 1
ALPHABET = (
    "sg P222 k=R", "sg P212121 k=R", "sg P212121 k=R random", "sg P212121 k=R real", "pg 4", "pg 4 rolled", "pg 4 real", "pg 4 random", "pg 222", "pg 222 random", "sg P222 k=0 random", "regular irreps", "regular irreps 22", "pg spin 4 axes", "pg spin 4 flipped",
    "msg k=Z", "table 1'", "table -1", "chain -1", "chain m", "project", "project other", "tensor", "tensor 1", "symmetrise", "decompose", "intertwiner",
    "purify", "transform", "unique", "little", "factor", "spinor factor", "xsg", "crystal I", "crystal P", "hall", "primitive matrix",
)
# the same functions with other arguments
EXTRA = (
    "mode dot 2", "mode dot 3", "tensor", "tensor 1", "symmetrise", "symmetrise symmetric", "intertwiner", "intertwiner 3", "little", "little all", "project", "project other",
    "decompose", "decompose 3", "chain m", "chain -1", "chain 4", "hall", "hall 2", "transform", "transform by 1", "unique", "unique already", "factor", "factor 2",
    "spinor factor", "spinor factor 2", "purify", "purify 2", "direct product", "direct product with 1", "table -1", "table 4", "regular", "regular 4", "xsg", "xsg 2",
    "pi axis", "third axis", "primitive matrix", "primitive matrix 2", "intertwiner inequivalent", "intertwiner 4", "msg 2'2'2 k=Z", "msg 22'2' k=Z",
    "crystal nearly I", "crystal nearly I, symprec=0.1", "crystal magnetic", "crystal ferromagnetic",
)
SMALL = ("pg 4", "pg 4 rolled", "pg spin 4 axes", "sg P212121 k=R", "project", "chain -1", "factor", "tensor")


def bounds(tier):
    return (f"{len(ALPHABET)} calls, ordered pairs with equal or related calls and {'all others' if tier == 'thorough' else 'a rotating fourteenth of the others'}; one preemption at every executed line of the library "
            f"({'every execution' if tier == 'thorough' else 'first and last execution'} of each line per caller); two preemptions (every pair of first executions of lines{'' if tier == 'thorough' else ', up to 24 x 24 of them'}) for {len(SMALL)} small calls; "
            f"state of the library that outlives a call (module variables, attributes, default arguments) and of the interpreter (warning filters, random generators, ...) is watched at every line of {len(set(ALPHABET + EXTRA))} calls, and for every pair of calls "
            "of which one writes what the other uses, two preemptions at all places where it is used (other places commute)")


NOT_SHARED = (types.ModuleType, type, types.BuiltinFunctionType, np.ufunc, str, bytes, int, float, complex, bool, type(None), tuple, frozenset)


MT19937 = np.random.mtrand._rand._bit_generator.ctypes.state_address  # 624 words and the position
# state of the interpreter that the threads share
PROCESS = {
    "warnings": lambda: (id(warnings.filters), tuple(map(id, warnings.filters)), id(warnings.showwarning)),
    "numpy.random": lambda: ctypes.string_at(MT19937, 2500),
    "random": lambda: random.getstate()[1],
    "numpy print options": lambda: str(np.get_printoptions()),
    "environment": lambda: tuple(os.environ._data.items()),
    "directory": os.getcwd,
    "standard output": lambda: (id(sys.stdout), id(sys.stderr)),
    "recursion limit": sys.getrecursionlimit,
}


def fingerprint(x, budget=None):
    """Cheap value that changes when a mutable object (nested a few levels) is written to."""
    budget = [4000] if budget is None else budget
    budget[0] -= 1
    if budget[0] < 0:
        return 0
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes()) if x.dtype != object else (x.shape, tuple(map(id, x.ravel())))
    if isinstance(x, (list, set)) or type(x).__name__ == "deque":
        return tuple(fingerprint(y, budget) for y in x)
    if isinstance(x, dict):
        return tuple((id(k), fingerprint(v, budget)) for k, v in list(x.items()))
    if isinstance(x, np.random.Generator):
        return str(x.bit_generator.state)
    if hasattr(x, "cache_info"):
        return tuple(x.cache_info())
    if isinstance(x, (int, float, complex, str, bool, type(None))):
        return x
    d = getattr(x, "__dict__", None)
    return (id(x), tuple((k, fingerprint(v, budget)) for k, v in d.items())) if isinstance(d, dict) and not isinstance(x, (types.ModuleType, type)) else id(x)


def shared_objects():
    """name -> function giving the current state of everything in the library that outlives a call: variables of its modules
    that can be written to, attributes and default arguments of functions, attributes of classes."""
    out, seen = {}, set()
    for mn, mod in sorted(sys.modules.items()):
        if mn != "spgrep" and not mn.startswith("spgrep."):
            continue
        written = {i.argval for f in vars(mod).values() if isinstance(f, types.FunctionType) for c in codes(f.__code__) for i in dis.get_instructions(c) if i.opname == "STORE_GLOBAL"}
        for name, v in list(vars(mod).items()):
            if name.startswith("__"):
                continue
            if name in written:
                out[f"{mn}.{name}"] = lambda mod=mod, name=name: fingerprint(vars(mod).get(name))
                continue
            if id(v) in seen:
                continue
            if isinstance(v, types.FunctionType):
                if getattr(v, "__module__", "").startswith("spgrep"):
                    seen.add(id(v))
                    out[f"{mn}.{name}()"] = lambda v=v: (fingerprint(v.__dict__), fingerprint(list(v.__defaults__ or ())), fingerprint(v.__kwdefaults__ or {}),
                                                        tuple(fingerprint(c.cell_contents) for c in (v.__closure__ or ()) if not callable(c.cell_contents)))
            elif isinstance(v, type):
                if v.__module__.startswith("spgrep"):
                    seen.add(id(v))
                    out[f"{mn}.{name}"] = lambda v=v: fingerprint({k: x for k, x in vars(v).items() if not k.startswith("__") and not callable(x)})
            elif not isinstance(v, NOT_SHARED) and not getattr(type(v), "__module__", "").startswith(("typing", "_thread", "threading")):
                seen.add(id(v))
                out[f"{mn}.{name}"] = lambda v=v: fingerprint(v)
    return out


def codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from codes(c)


def names_loaded(code):
    """line -> names of globals used there"""
    out = {}
    for i in dis.get_instructions(code):
        if i.opname in ("LOAD_GLOBAL", "STORE_GLOBAL", "LOAD_NAME", "DELETE_GLOBAL") and i.positions and i.positions.lineno:
            out.setdefault(i.positions.lineno, set()).add(i.argval)
    return out


def accesses(name):
    """Line events of the call at which long-lived state of the library is used or changes: {object: (written, [events])}."""
    objs = dict(shared_objects(), **PROCESS)
    ids = {id(warnings): "warnings", id(warnings.warn): "warnings", id(np.random): "numpy.random", id(random): "random"}
    for mn, mod in list(sys.modules.items()):
        if mn == "spgrep" or mn.startswith("spgrep."):
            for n, v in vars(mod).items():
                for o in (f"{mn}.{n}", f"{mn}.{n}()"):
                    if o in objs:
                        ids[id(v)] = o
    state = {o: f() for o, f in objs.items()}
    used, loads = {}, {}
    t = Tracer(library(), None)

    def look(n, frame):
        for o, f in objs.items():
            v = f()
            if v != state[o]:
                state[o] = v
                used.setdefault(o, [False, []])[0] = True
                used[o][1] += [max(n - 1, 0), n]
        if frame is None:
            return
        code = frame.f_code
        if code not in loads:
            loads[code] = names_loaded(code)
        for g in loads[code].get(frame.f_lineno, ()):
            o = f"{frame.f_globals.get('__name__')}.{g}"
            o = o if o in objs else ids.get(id(frame.f_globals.get(g)))
            if o is not None:
                used.setdefault(o, [False, []])[1] += [n, n + 1]

    def trace(frame, event, arg):
        return local if t.inside(frame.f_code) else None

    def local(frame, event, arg):
        if event == "line":
            look(t.n, frame)
            t.n += 1
        return local

    sys.settrace(trace)
    try:
        calls.execute(calls.build()[name])
    finally:
        sys.settrace(None)
    look(t.n, None)
    return {o: [w, sorted(set(e))] for o, (w, e) in used.items()}


def accesses_or_nothing(name):
    try:
        return accesses(name)
    except Exception:
        return {}


def few(events, n=20):
    return events if len(events) <= n else events[: n - 5] + events[-5:]


def related(a, b):
    return a.split()[0] == b.split()[0]


def tasks(tier):
    out = []
    for i, a in enumerate(ALPHABET):
        for j, b in enumerate(ALPHABET):
            if related(a, b) or tier == "thorough" or (i * 5 + j) % 14 == 0:
                out.append(("one", a, b, tier))
    out += [("one", a, b, tier) for a, b in zip(EXTRA[::2], EXTRA[1::2]) if a not in ALPHABET or b not in ALPHABET]
    out += [("two", a, b, tier) for a in SMALL for b in SMALL if related(a, b) or tier == "thorough" or b == SMALL[0]]
    import spgrep.core, spgrep.tensor, spgrep.corep, spgrep.transform  # noqa: F401,E401

    names = [n for n in calls.build() if n in ALPHABET or n in EXTRA]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        acc = dict(zip(names, pool.map(accesses_or_nothing, names, chunksize=1)))
    # a call that leaves traces in the library is explored from a fresh copy of the process for every schedule
    traces = {n for n in names if any(w for w, _ in acc.get(n, {}).values())}
    out = [x + (x[1] in traces or x[2] in traces,) for x in out]
    shared = []
    for a in names:
        for b in names:
            both = [o for o in acc.get(a, {}) if o in acc.get(b, {}) and (acc[a][o][0] or acc[b][o][0])]
            if both:
                shared.append((a, b, sorted({(i, j) for o in both for i in few(acc[a][o][1]) for j in few(acc[b][o][1])})))
    # calls of the same function first; if nearly all calls share something, fewer places per pair of calls
    shared.sort(key=lambda x: not related(x[0], x[1]))
    most = 250 if len(shared) < 200 else max(6, 50000 // len(shared))
    first = []
    for a, b, pairs in shared:
        m = 250 if related(a, b) and len(shared) < 1500 else most
        first.append(("two-shared", a, b, pairs if tier == "thorough" else pairs[:: 1 + len(pairs) // m], tier, True))
    out = first + out + [("shared", n, sorted(o for o, (w, _) in acc.get(n, {}).items() if w), tier, False) for n in names]
    return out


def library():
    import spgrep

    return os.path.dirname(os.path.abspath(spgrep.__file__)) + os.sep


class Tracer:
    """Calls ``hook(n, where)`` before the n-th line of the library executed by this thread."""

    def __init__(self, root, hook, at=None):
        self.root, self.hook, self.n, self.at = root, hook, 0, at
        self.names = {}

    def inside(self, code):
        f = code.co_filename
        if f not in self.names:
            self.names[f] = os.path.abspath(f).startswith(self.root)
        return self.names[f]

    def __call__(self, frame, event, arg):
        if not self.inside(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n += 1
            if self.at is None:
                self.hook(n, (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lineno))
            elif n == self.at:
                sys.settrace(None)  # nothing more to stop at
                while frame is not None:
                    frame.f_trace = None
                    frame = frame.f_back
                self.hook(n, None)
                return None
        return self.local


def traced(entry, hook, at=None):
    t = Tracer(library(), hook, at)
    sys.settrace(t)
    try:
        return calls.execute(entry)[:2]
    finally:
        sys.settrace(None)


def points(name, limit, last=True):
    """Positions (line events) at which to preempt: the first ``limit`` and the last execution of every line."""
    log = []
    traced(calls.build()[name], lambda n, w: log.append(w))
    per = {}
    for n, w in enumerate(log):
        per.setdefault(w, []).append(n)
    keep = set()
    for v in per.values():
        keep |= set(v if limit is None else v[:limit] + (v[-1:] if last else []))
    return sorted(keep), len(log)


def compare(name, got):
    a = unjson(reference(name))
    if got is None:
        return "no result"
    if a[0] != got[0]:
        return f"outcome {got[0]} {got[1] if got[0] == 'raise' else ''} instead of {a[0]}"
    if a[0] == "raise":
        return None if a[1] == got[1] else f"raises {got[1]} instead of {a[1]}"
    return calls.differ(a[1], got[1])


@lru_cache(None)
def entries():
    return calls.build()


def schedule(a, b, i, j=None):
    """Thread A stops at its line event i; B runs to the end, or to its line event j, A finishes, B finishes."""
    E = {n: (lambda e: (e[0], copy.deepcopy(e[1]), copy.deepcopy(e[2])))(entries()[n]) for n in (a, b)} if a != b else None
    if E is None:
        # two threads with the same arguments, as one caller would pass them
        f, x, y = entries()[a]
        E = {a: (f, copy.deepcopy(x), copy.deepcopy(y))}
    res, threads = {}, []
    stopped, a_done = threading.Event(), threading.Event()
    if j is None:
        def body():
            res["b"] = calls.execute(E[b])[:2]

        def hook(n, w):
            # a lock held by the first thread may make the second wait for it
            threads.append(threading.Thread(target=body))
            threads[0].start()
            threads[0].join(2)
    else:
        def hook_b(n, w):
            stopped.set()
            a_done.wait(60)

        def body():
            try:
                res["b"] = traced(E[b], hook_b, j)
            finally:
                stopped.set()

        def hook(n, w):
            threads.append(threading.Thread(target=body))
            threads[0].start()
            stopped.wait(2)

    try:
        res["a"] = traced(E[a], hook, i)
    finally:
        a_done.set()
        for t in threads:
            t.join(60)
    if not threads:
        # the first call ended before the place was reached: the second runs after it
        res["b"] = calls.execute(E[b])[:2]
    return res.get("a"), res.get("b")


def outcome(a, b, i, j):
    """(message about a, message about b) for one schedule."""
    process = {o: f() for o, f in PROCESS.items()}
    ra, rb = schedule(a, b, i, j)
    ma, mb = compare(a, ra), compare(b, rb)
    left = [o for o, f in PROCESS.items() if f() != process[o]]
    if left and not ma:
        ma = f"as alone, but {', '.join(left)} of the interpreter left changed"
    return ma, mb


def run(kind, a, b, tier, pairs=None, traces=False):
    bad, n = [], 0
    quick = tier == "quick"

    def where(name, limit, last):
        return tuple(child(lambda: {"p": points(name, limit, last)})["p"]) if traces else points(name, limit, last)

    if pairs is not None:
        total, plans = 0, pairs
    elif kind == "one":
        pts, total = where(a, 1 if quick else None, True)
        plans = [(i, None) for i in pts]
    else:
        pa, total = where(a, 1, False)
        pb, _ = where(b, 1, False)
        if quick:
            pa, pb = pa[:: max(1, -(-len(pa) // 24))], pb[:: max(1, -(-len(pb) // 24))]
        plans = [(i, j) for i in pa for j in pb]
    for i, j in plans:
        if traces:
            ma, mb = child(lambda: {"m": outcome(a, b, i, j)}).get("m") or ("no result", "no result")
        else:
            ma, mb = outcome(a, b, i, j)
        n += 1
        if ma or mb:
            at = f"first stopped at line event {i} of {total}" + ("" if j is None else f", second at {j}")
            bad.append((at, f"'{a}': {ma or 'as alone'}; '{b}' in the other thread: {mb or 'as alone'}"))
            if len(bad) >= 2:
                break
    return {"n": n, "bad": bad, "lines": total}


def check(task, rec):
    import spgrep.core, spgrep.tensor, spgrep.corep, spgrep.transform  # noqa: F401,E401

    if task[0] == "shared":
        rec.model(1, 1)
        rec.count("calls_traced_for_shared_state")
        if task[2]:
            rec.count("calls_writing_shared_state")
        return
    pairs = [tuple(p) for p in task[3]] if task[0] == "two-shared" else None
    kind, a, b, tier, traces = task[0], task[1], task[2], task[-2], task[-1]
    for n in (a, b):
        reference(n)
    r = child(lambda: run(kind, a, b, tier, pairs, traces))
    rec.model(r["n"], r["n"])
    rec.evals += 2 * r["n"] - 1
    rec.count("nontrivial", r["n"])
    rec.count("schedules", r["n"])
    for at, msg in r["bad"]:
        rec.violation(f"threads '{a}' and '{b}', {at}", msg)
    rec.sample(f"'{a}' preempted by '{b}': {r['n']} schedules over {r.get('lines')} line events")
