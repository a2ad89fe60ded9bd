"""C05: spinor lift, its factor system and complete spinor representations."""
from __future__ import annotations

import itertools

import numpy as np

from mc.exact import Model, dedupe, kfloat, kgrid, little_indices, num_projective_irreps, star_representatives
from mc.gen import LINES, deviate, hall_std_primitive, lattice_for
from mc.reps import check_complete
from mc.spin import LOOSE, check_lift
from mc.util import call, classes, conjugates, fmt, group_table, orderings

RULE = (
    "one case = (space group or point group, lattice orientation, k vector, method, presentation); the 2x2 "
    "matrices are compared with exp(-i theta n.sigma/2) of the proper part"
)
CHUNK = 1
ORI = ("axes", "generic", "left", "permuted", "flipped", "strained")


# the 48 ways of naming and reversing the Cartesian axes; units of length
TURNS = [np.diag(s)[list(p)] for p in itertools.permutations(range(3)) for s in itertools.product((1.0, -1.0), repeat=3)]
SCALES = (0, -6, 3, -3, 6)


def kset(tier):
    ks = dedupe(kgrid(2) + [k for k in kgrid(3) if k[2] == 0] + LINES[:26:3])
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return ks


def bounds(tier):
    return (f"122 rotation sets x 5 lattice orientations and a lattice strained by 1e-4 x orderings x both methods, x 48 signed permutations of the Cartesian axes with units of length 1e-6 to 1e6, their conjugates with entries up to 1; "
            f"530 Hall numbers x star representatives of {len(kset(tier))} k vectors x orientations/presentations"
            f"{' (all combinations)' if tier == 'thorough' else ' (rotated through)'}")


def tasks(tier):
    return [("sg", h, None, tier) for h in range(530, 0, -1)] + [("pg", h, R.tolist(), tier) for h, R in classes()][::-1]


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as P,
        get_spacegroup_spinor_irreps_from_primitive_symmetry as G,
    )

    kind, h, R, tier = task
    if kind == "pg":
        R = np.array(R)
        cases = []
        for i, (oname, perm) in enumerate(orderings(len(R))):
            for ori in ORI if (i < 2 or tier == "thorough") else (ORI[i % 6],):
                cases.append((f"order={oname}", R[perm], ori))
        for i, (u, Q) in enumerate(conjugates(R, 1)):
            cases.append((f"basis={u.tolist()}", Q, ORI[(i + h) % 6]))
        cases += [(f"turned {i}, unit {10.0 ** SCALES[(i + h) % 5]:g}", R, i) for i in range(len(TURNS))]
        for i, (nm, Q, ori) in enumerate(cases):
            L = lattice_for(Q, ori) if isinstance(ori, str) else lattice_for(Q, "axes") @ TURNS[ori].T * 10.0 ** SCALES[(ori + h) % 5]
            t = group_table(Q)
            n = len(Q)
            for method in ("Neto", "random") if (i % 3 == 0 or tier == "thorough") else (("Neto", "random")[i % 2],):
                name = f"pointgroup of hall={h} {nm} lattice={ori} method={method}"
                out = call(rec, name, P, L, Q, method=method)
                if out is None:
                    continue
                irreps, omega, U = out
                rec.model(n, n * n, len(irreps) + 1)
                msg = check_lift(L, Q, None, U, omega, t, LOOSE[ori == "strained"]) or check_complete(
                    irreps, t, omega, n, num_projective_irreps(t, (np.real(omega) < 0).astype(int), 2)
                )
                if msg:
                    rec.violation(name, msg)
                    continue
                if n > 1:
                    rec.count("nontrivial")
                rec.sample(f"{name}: order {n}, dimensions {sorted(x.shape[1] for x in irreps)}")
        return
    std = hall_std_primitive(h)
    devs = ("none", "lattice-shift", "reverse", "origin", "basis1", "interleave+kG", "basis3", "-k", "general-origin", "skew", "basis2+lattice-shift")
    for i, k in enumerate(star_representatives(std, kset(tier))):
        if tier == "thorough":
            combos = [(devs[(i + j) % len(devs)], ORI[(h + j) % 6], ("Neto", "random")[j % 2]) for j in range(10)]
        else:
            combos = [(devs[(i + h) % len(devs)], ORI[(i + h // 3) % 6], ("Neto", "random")[(i + h) % 2])]
        for d, ori, method in combos:
            ops, kk = deviate(d, std, k)
            Rf, tf = ops.floats()
            L = lattice_for(Rf, ori)
            name = f"hall={h} k={fmt(k)} dev={d} lattice={ori} method={method}"
            kw = {} if all(x == 0 for x in kk) and i % 2 == 0 else dict(kpoint=kfloat(kk))
            out = call(rec, name, G, L, Rf, tf, method=method, **kw)
            if out is None:
                continue
            irreps, omega, U, mp = out
            li = little_indices(ops, kk)
            order = [int(x) for x in mp]
            if sorted(order) != li:
                rec.violation(name, f"little group {order}, exact little group {li}")
                continue
            m = Model(ops.subset(order), kk)
            n = len(li)
            rec.model(n, n * n, len(irreps) + 1)
            msg = check_lift(L, Rf[order], None, U, omega, m.table, LOOSE[ori == "strained"])
            if msg is None:
                ph = (2 * m.phase + m.N * (np.real(omega) < 0)) % (2 * m.N)
                msg = check_complete(irreps, m.table, m.phase_complex() * omega, n, num_projective_irreps(m.table, ph, 2 * m.N))
            if msg:
                rec.violation(name, msg)
                continue
            if n > 1:
                rec.count("nontrivial")
            rec.sample(f"{name}: little group order {n}, dimensions {sorted(x.shape[1] for x in irreps)}")
