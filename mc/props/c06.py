"""C06: spinor representations and co-representations from a (magnetic) crystal structure."""
from __future__ import annotations

import warnings
from fractions import Fraction as F

import numpy as np

from mc.exact import (
    Model, centring_vectors, dedupe, fmat_mul, hall_conventional, kfloat, kgrid, msg_conventional,
)
from mc.gen import LINES
from mc.props.c02 import NEAR, cells, lefthanded, match_ops, star_representatives_crystal, supercells
from mc.reps import check_complete
from mc.spin import LOOSE, check_corep_set, check_lift
from mc.structures import (
    DISTORTIONS, distort, expand, found_operations, lattice_little, magnetic_structure, memoise_symmetry_search, near_ops, orbit_structure,
    same_operations, transform_structure,
)

RULE = (
    "one case = (crystal with the symmetry of a Hall number, or collinear magnetic crystal with the symmetry "
    "of a magnetic space group; cell it is given in; k vector; method)"
)
ASSUMPTIONS = [
    "crystals for which spglib's own symmetry search returns nothing, or not the whole group, are left out and "
    "counted under skipped_no_dataset (7 undistorted ones and some supercells)",
    "the operations a distorted crystal has within symprec are those spglib's search reports for it",
]
CHUNK = 1
ORI = ("axes", "generic", "permuted", "flipped")


def kset(tier):
    ks = [(F(0), F(0), F(0)), (F(1, 2), F(0), F(0)), (F(0), F(1, 2), F(1, 2)), (F(1, 2), F(1, 2), F(1, 2)),
          (F(1, 3), F(1, 3), F(0)), (F(1), F(0), F(0)), (F(0), F(0), F(1, 5)), (F(1, 5), F(2, 5), F(1, 2)),
          (F(0), F(0), F(1, 2)), (F(1, 2), F(1, 2), F(0))]
    if tier == "thorough":
        ks = dedupe(ks + kgrid(2) + kgrid(3) + LINES)
    return ks


def bounds(tier):
    return (f"all 530 Hall numbers without moments, all 1651 magnetic space groups with collinear moments, "
            f"cells: given, primitive, cyclic, skewed ({'each' if tier == 'thorough' else 'two of them each'}) and supercells ({'one of ' if tier == 'quick' else ''}all sublattices of index 2 to {4 if tier == 'quick' else 5}), left-handed axes without moments, "
            f"{len(kset(tier))} k vectors up to symmetry, in the dual basis or a basis of the caller's, the zero vector also left out; the same crystals with a strain or displacements of 1e-4 and "
            "symprec 1e-2, 1e-6 or default")


def tasks(tier):
    return [("hall", h, tier) for h in range(1, 531)] + [
        ("msg", u, tier) for u in range(1, 1652)
    ] + [("near hall", h, tier) for h in range(1, 531)] + [("near msg", u, tier) for u in range(1, 1652)] + [("super hall", h, tier) for h in range(1, 531)] + [
        ("super msg", u, tier) for u in range(1, 1652)
    ]


def distorted(task, rec):
    """Crystals whose symmetry is only approximate: the operations are those within symprec."""
    from spgrep import get_spacegroup_spinor_irreps as G

    kind, num, tier = task
    conv = hall_conventional(num) if kind == "near hall" else msg_conventional(num)
    ori = ORI[num % 4]
    base = (orbit_structure if kind == "near hall" else magnetic_structure)(conv, ori)
    cl = cells(conv, "quick")
    for ci, (cname, P) in enumerate(cl):
        if tier == "quick" and ci != (num // 3) % len(cl):
            continue
        exp = expand(conv, P)
        cell0 = transform_structure(base, P)
        for di, (dname, how, kw, whole) in enumerate(DISTORTIONS):
            if tier == "quick" and kind == "near msg" and (di + num) % 4:
                continue
            cell = distort(cell0, how)
            ops = found_operations(exp, cell, kw.get("symprec", 1e-5), whole)
            if ops is None:
                rec.count("skipped_no_dataset")
                continue
            cen = centring_vectors(ops)
            for ki, k in enumerate(NEAR):
                if tier == "quick" and (ki + di + num // 4) % 3:
                    continue
                kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
                for method in ("Neto", "random") if tier != "quick" else (("Neto", "random")[(ki + num) % 2],):
                    name = f"{kind}={num} cell={cname} {dname} k={','.join(map(str, k))} method={method} lattice={ori}"
                    one(G, rec, name, ops, cen, cell, kk, method, kw)


def larger(task, rec):
    """Supercells, with and without moments."""
    import spglib
    from spgrep import get_spacegroup_spinor_irreps as G

    kind, num, tier = task
    mag = kind == "super msg"
    conv = msg_conventional(num) if mag else hall_conventional(num)
    ori = ORI[num % 4]
    base = (magnetic_structure if mag else orbit_structure)(conv, ori)
    cl = supercells(conv, num, tier)
    if not mag:  # spglib's own search for magnetic crystals crashes for left-handed axes
        cl += lefthanded(conv, num)
    for ci, (cname, P) in enumerate(cl):
        if tier == "quick" and ci != num // (31 if mag else 2) % len(cl):
            continue
        exp = expand(conv, P)
        cell = transform_structure(base, P)
        found = (spglib.get_magnetic_symmetry_dataset if mag else spglib.get_symmetry_dataset)(cell, symprec=1e-5)
        if found is None or match_ops(exp, found["rotations"], found["translations"], found["time_reversals"] if mag else None) is None:
            rec.count("skipped_no_dataset")
            continue
        cen = centring_vectors(exp)
        for ki, k in enumerate(NEAR):
            if tier == "quick" and (ki + num) % 3:
                continue
            kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
            method = ("Neto", "random")[(ki + num) % 2]
            one(G, rec, f"{kind}={num} {cname} k={','.join(map(str, k))} method={method} lattice={ori}", exp, cen, cell, kk, method)


def check(task, rec):
    memoise_symmetry_search()
    import spglib
    from spgrep import get_spacegroup_spinor_irreps as G

    kind, num, tier = task
    if kind.startswith("near"):
        distorted(task, rec)
        return
    if kind.startswith("super"):
        larger(task, rec)
        return
    conv = hall_conventional(num) if kind == "hall" else msg_conventional(num)
    ori = ORI[num % 4]
    base = (orbit_structure if kind == "hall" else magnetic_structure)(conv, ori)
    cl = cells(conv, "quick")
    if tier == "quick":
        cl = [c for i, c in enumerate(cl) if i in (0, 1 + num % (len(cl) - 1))]
        if kind == "msg":
            cl = [cl[num // 2 % 2]]
    ks = star_representatives_crystal(conv, kset(tier))
    for ci, (cname, P) in enumerate(cl):
        exp = expand(conv, P)
        cell = transform_structure(base, P)
        cen = centring_vectors(exp)
        found = (spglib.get_symmetry_dataset if len(cell) == 3 else spglib.get_magnetic_symmetry_dataset)(cell, symprec=1e-5)
        if found is None or match_ops(
            exp, found["rotations"], found["translations"], found["time_reversals"] if len(cell) > 3 else None
        ) is None:
            rec.count("skipped_no_dataset")
            continue
        for ki, k in enumerate(ks):
            if tier == "quick" and kind == "msg" and (ki + num) % 2:
                continue
            kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
            method = ("Neto", "random")[(ki + ci + num) % 2]
            for method in (method,) if tier == "quick" else ("Neto", "random"):
                name = f"{kind}={num} cell={cname} k={','.join(map(str, k))} method={method} lattice={ori}"
                one(G, rec, name, exp, cen, cell, kk, method)
                if not any(k):
                    one(G, rec, name + " (k left out)", exp, cen, cell, kk, method, given={})
                elif (ki // 2 + num) % 3 == 0 or tier != "quick":
                    rl = BASIS @ np.linalg.inv(cell[0]).T
                    one(G, rec, name + " (own reciprocal basis)", exp, cen, cell, kk, method,
                        given={"kpoint": kfloat(kk) @ np.linalg.inv(BASIS), "reciprocal_lattice": rl})


BASIS = np.array([[1.0, 1, 0], [0, 2, 0], [0, 1, -1]])


def one(G, rec, name, exp, cen, cell, kk, method, kw=None, given=None):
    lattice, pos, num = cell[:3]
    mag = cell[3] if len(cell) > 3 else None
    kw_k = {"kpoint": kfloat(kk)} if given is None else given
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = G(lattice, pos, num, magmoms=mag, method=method, **kw_k, **({"symprec": 1e-5} if kw is None else kw))
        except Exception as e:
            rec.violation(name, f"raised {e!r}"[:300])
            return
    if mag is None:
        irreps, omega, U, R, t, mp = out
        tr = anti = None
    else:
        irreps, omega, U, anti, R, t, tr, mp = out
    if kw is None:
        ops = match_ops(exp, R, t, tr)
    else:
        ops = near_ops(exp, R, t, tr)
        ops = ops if ops is not None and same_operations(ops, exp) else None
    if ops is None:
        rec.violation(name, f"returned operations ({len(R)}) are not the symmetry operations of the crystal ({len(exp)})")
        return
    li = lattice_little(ops, kk, cen)
    order = [int(i) for i in mp]
    if sorted(order) != li:
        rec.violation(name, f"little group {order}, exact little group {li}")
        return
    if [x for x in w if issubclass(x.category, UserWarning)]:
        rec.violation(name, f"warning: {w[-1].message}")
        return
    sub = ops.subset(order)
    m = Model(sub, kk)
    rec.model(len(li), len(li) ** 2, len(irreps))
    msg = check_lift(lattice, sub.R, sub.tr, U, omega, m.table, LOOSE[kw is not None])
    if msg is None:
        if mag is None:
            msg = check_complete(irreps, m.table, m.phase_complex() * omega, len(li), quot=len(cen))
        else:
            msg = check_corep_set(irreps, None, omega, m, anti, quot=len(cen))
    if msg:
        rec.violation(name, msg)
        return
    if len(li) > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: {len(exp)} operations, little group {len(li)}, dimensions {sorted(x.shape[1] for x in irreps)}")
