"""C08: coset decomposition of a magnetic space group by its maximal space subgroup."""
from __future__ import annotations

import numpy as np

from mc.exact import Ops, key, mat_vec, mod1, msg_conventional, little_indices, dedupe, kgrid
from mc.gen import LINES, deviate, msg_std_primitive
from mc.util import call, fmt

RULE = "one case = one list of operations (whole group or little group) in one presentation"
CHUNK = 4
DEVS = ("none", "reverse", "rotate", "interleave", "lattice-shift", "origin", "general-origin", "basis1", "basis3", "origin+lattice-shift+reverse")


def bounds(tier):
    return (f"all 1651 magnetic space groups, conventional and primitive cells x {len(DEVS)} presentations, every choice of the first "
            f"antiunitary operation (cyclic shifts{'' if tier == 'thorough' else ', groups up to 16 operations'}), little groups of k grids")


def tasks(tier):
    return [(u, tier) for u in range(1651, 0, -1)]


def one(D, rec, name, ops):
    R, t = ops.floats()
    out = call(rec, name, D, R, t, ops.tr.copy())
    n = len(ops)
    if name and not np.any(ops.tr):
        rec.model(n, 0)
        if out is not None:
            rec.violation(name, f"no antiunitary operation, but returned {out!r}"[:200])
        return
    if out is None:
        if not any(b["key"] == name for b in rec.bad):
            rec.violation(name, "returned None although the group has antiunitary operations")
        return
    xsg, tri, a0 = out
    xsg, tri, a0 = [int(i) for i in xsg], [int(i) for i in tri], int(a0)
    rec.model(n, len(xsg))
    lin = [i for i in range(n) if ops.tr[i] == 0]
    if sorted(xsg) != lin:
        rec.violation(name, f"subgroup indices {xsg} are not the unitary operations {lin}")
        return
    if not (0 <= a0 < n) or ops.tr[a0] != 1:
        rec.violation(name, f"a0 index {a0} is not antiunitary")
        return
    if len(tri) != len(xsg) or sorted(tri) != [i for i in range(n) if ops.tr[i] == 1]:
        rec.violation(name, f"coset indices {tri} are not the antiunitary operations")
        return
    for i, j in zip(xsg, tri):
        Rn = ops.R[i] @ ops.R[a0]
        tn = tuple(a + b for a, b in zip(mat_vec(ops.R[i], ops.t[a0]), ops.t[i]))
        if key(Rn) != key(ops.R[j]) or any((a - b).denominator != 1 for a, b in zip(tn, ops.t[j])):
            rec.violation(name, f"operation {i} times a0={a0} is not operation {j}")
            return
    rec.count("nontrivial")
    rec.sample(f"{name}: {len(xsg)} unitary + {len(tri)} antiunitary operations, a0={a0}")


def check(task, rec):
    from spgrep.group import decompose_by_maximal_space_subgroup as D

    u, tier = task
    for cell, std in (("conventional", msg_conventional(u)), ("primitive", msg_std_primitive(u))):
        zero = (std.t[0][0] * 0,) * 3
        n = len(std)
        if cell == "conventional" and n > 96 and tier == "quick":
            devs = ("none", "reverse+lattice-shift")
        else:
            devs = DEVS
        for d in devs:
            o, _ = deviate(d, std, zero)
            one(D, rec, f"uni={u} cell={cell} dev={d}", o)
        if n <= 16 or (tier == "thorough" and n <= 96):
            for s in range(1, n):
                one(D, rec, f"uni={u} cell={cell} shift={s}", std.subset([(i + s) % n for i in range(n)]))
    std = msg_std_primitive(u)
    seen = set()
    for k in dedupe(kgrid(2) + (kgrid(3) + LINES if tier == "thorough" else LINES[:12:3])):
        li = tuple(little_indices(std, k))
        if li in seen:
            continue
        seen.add(li)
        one(D, rec, f"uni={u} little group k={fmt(k)}", std.subset(list(li)))
