"""C15: the little group is exactly the set of operations fixing k modulo reciprocal lattice vectors."""
from __future__ import annotations

import numpy as np

from mc.exact import dedupe, kfloat, kgrid, little_indices, mat_vec
from mc.gen import LINES, deviate, hall_std_primitive, msg_std_primitive
from mc.util import call, fmt

RULE = (
    "one case = (list of operations, k vector, displacement of k); displacements of 1e-9 (inside the default tolerance) and "
    "1e-6, 1e-4 (outside) along three directions"
)
CHUNK = 4
DEVS = ("reverse", "interleave", "basis1", "basis2", "basis3", "skew", "origin")
DIRS = [(1, 0, 0), (0, 1, 0), (1, -2, 3)]


def kset(tier):
    ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    if tier == "thorough":
        ks = dedupe(ks + kgrid(6) + kgrid(8) + kgrid(5))
    return ks


def bounds(tier):
    return f"530 Hall numbers x {len(kset(tier))} k vectors (no symmetry reduction), shifted by reciprocal lattice vectors up to 100, displaced; 6 other presentations"


def tasks(tier):
    return [(h, tier) for h in range(1, 531)]


def shifted(k, i):
    g = [(0, 0, 0), (1, -1, 2), (-3, 0, 7), (100, -50, 25)][i % 4]
    return tuple(a + b for a, b in zip(k, g))


def one(L, rec, name, ops, R, t, kf, want, **kw):
    out = call(rec, name, L, R, t, kf, **kw)
    if out is None:
        return False
    lr, lt, mp = out
    mp = [int(x) for x in mp]
    rec.model(len(ops), len(ops))
    if sorted(mp) != want:
        rec.violation(name, f"little group {mp}, exact {want}")
        return False
    if np.shape(lr) != (len(mp), 3, 3) or not np.array_equal(lr, R[mp]) or not np.allclose(lt, t[mp], atol=1e-12):
        rec.violation(name, "returned operations are not those of the mapping")
        return False
    if 1 < len(want) < len(ops):
        rec.count("nontrivial")
    return True


def displaced(ops, k, d):
    """Exact little group of k + eps d for infinitesimal eps."""
    return [i for i in little_indices(ops, k) if mat_vec(ops.R[i].T, d) == tuple(d)]


def check(task, rec):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as G
    from spgrep.group import get_little_group as L

    h, tier = task
    std = hall_std_primitive(h)
    R, t = std.floats()
    for i, k in enumerate(kset(tier)):
        kk = shifted(k, i + h)
        li = little_indices(std, k)
        name = f"hall={h} k={fmt(kk)}"
        if not one(L, rec, name, std, R, t, kfloat(kk), li):
            continue
        d = DIRS[(i + h) % 3]
        for eps in (1e-9, 1e-6, 1e-4):
            want = li if eps < 1e-8 else displaced(std, k, d)
            if eps < 1e-8 and max(abs(x) for r in std.R for x in mat_vec(r.T, d)) > 3:
                continue
            one(L, rec, f"{name} + {eps} {d}", std, R, t, kfloat(k) + eps * np.array(d, dtype=float), want)
        one(L, rec, f"{name} atol=1e-3", std, R, t, kfloat(k) + 1e-5 * np.array(d, dtype=float), li, atol=1e-3)
        dev = DEVS[(i + h) % len(DEVS)]
        o, ko = deviate(dev, std, kk)
        one(L, rec, f"{name} dev={dev}", o, *o.floats(), kfloat(ko), little_indices(o, ko))
    rec.sample(f"hall={h}: {len(std)} operations, k=0 fixed by all, k=(1/5,2/5,1/7) by {len(little_indices(std, LINES[-4]))}")
