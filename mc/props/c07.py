"""C07: complete small co-representations of magnetic space groups and magnetic point groups."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, Ops, dedupe, kfloat, kgrid, little_indices, star_representatives
from mc.gen import LINES, deviate, lattice_for, magnetic_pointgroups, msg_std_primitive
from mc.spin import LOOSE, check_corep_set, check_lift
from mc.util import call, fmt

RULE = (
    "one case = (magnetic space or point group, k vector, method, lattice orientation, presentation); "
    "completeness and irreducibility by the Wigner-Dimmock sum over antiunitary operations"
)
CHUNK = 2
ORI = ("axes", "generic", "left", "permuted", "flipped", "strained")
DEVS = ("none", "lattice-shift", "reverse", "origin", "basis1", "interleave+kG", "basis3", "-k",
        "rotate", "general-origin", "skew", "basis2+lattice-shift", "reverse+origin")


def kset(tier, u=0):
    third = kgrid(3)[1:]
    quarter = [k for k in kgrid(4) if any((2 * x).denominator != 1 for x in k)]
    ks = dedupe(kgrid(2) + [third[(5 * u + 9 * i) % 26] for i in range(3)] + [quarter[(5 * u + 17 * i) % len(quarter)] for i in range(3)] + LINES[u % 10 :: 10])
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return ks


def bounds(tier):
    return (f"all 1651 magnetic space groups x star representatives of {len(kset(tier))} k vectors{'' if tier == 'thorough' else ' (the 8 with 2k=0 and some thirds, quarters and lines changing with the group)'} (method, lattice orientation and "
            f"presentation {'x both methods' if tier == 'thorough' else ''} rotated through {len(DEVS)} deviations, 5 orientations and a lattice strained by 1e-4); all magnetic "
            "point groups they contain x these 6 lattices x 4 presentations x both methods (a third of the combinations in the quick tier)")


def tasks(tier):
    return [("msg", u, tier) for u in range(1651, 0, -1)] + [("mpg", u, tier) for u, _, _ in magnetic_pointgroups().values()]


def one(fn, rec, name, L, ops, kk, with_map):
    out = call(rec, name, fn)
    if out is None:
        return
    order = li = little_indices(ops, kk)
    if with_map:
        coreps, ind, omega, U, anti, mp = out
        order = [int(x) for x in mp]
        if sorted(order) != li:
            rec.violation(name, f"little group {order}, exact little group {li}")
            return
    else:
        coreps, ind, omega, U, anti = out
    sub = ops.subset(order)
    m = Model(sub, kk)
    n = len(li)
    rec.model(n, n * n, len(coreps) + 1)
    msg = check_lift(L, sub.R, sub.tr, U, omega, m.table, LOOSE["lattice=strained" in name]) or check_corep_set(coreps, ind, omega, m, anti)
    if msg:
        rec.violation(name, msg)
        return
    if n > 1:
        rec.count("nontrivial")
    if np.any(sub.tr):
        rec.count("with_antiunitary")
    rec.sample(f"{name}: little group order {n}, dimensions {sorted(x.shape[1] for x in coreps)}, indicators {list(map(int, ind))}")


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as P,
        get_spacegroup_spinor_irreps_from_primitive_symmetry as G,
    )

    kind, u, tier = task
    std = msg_std_primitive(u)
    zero = (std.t[0][0] * 0,) * 3
    if kind == "mpg":
        base = Ops(std.R, [zero] * len(std), std.tr)
        for i, d in enumerate(("none", "reverse", "interleave", "basis1")):
            ops, _ = deviate(d, base, zero)
            for j, ori in enumerate(ORI):
                if tier == "quick" and (i + j + u) % 3:
                    continue
                L = lattice_for(ops.R, ori)
                for method in ("Neto", "random") if tier == "thorough" else (("Neto", "random")[(i + j // 3 + u) % 2],):
                    name = f"magnetic pointgroup of uni={u} dev={d} lattice={ori} method={method}"
                    one(lambda: P(L, ops.R, ops.tr, method=method), rec, name, L, ops, zero, False)
        return
    for i, k in enumerate(star_representatives(std, kset(tier, u))):
        for j in range(4 if tier == "thorough" else 1):
            d, ori, method = DEVS[(i + u + 3 * j) % len(DEVS)], ORI[(i + u // 6 + j) % 6], ("Neto", "random")[(i + u + j) % 2]
            ops, kk = deviate(d, std, k)
            Rf, tf = ops.floats()
            L = lattice_for(Rf, ori)
            name = f"uni={u} k={fmt(k)} dev={d} lattice={ori} method={method}"
            one(lambda: G(lattice=L, rotations=Rf, translations=tf, time_reversals=ops.tr, kpoint=kfloat(kk), method=method),
                rec, name, L, ops, kk, True)
