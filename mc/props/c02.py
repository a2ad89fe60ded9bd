"""C02: small representations from a crystal structure, in whatever cell it is given."""
from __future__ import annotations

import warnings
from fractions import Fraction as F

import numpy as np

from mc.exact import (
    Model, Ops, centring_vectors, dedupe, fmat_mul, frac_vec, hall_conventional, key, kfloat, kgrid, mod1,
    star_representatives,
)
from mc.gen import LINES, STD_PRIMITIVE, centring_symbol, origin_shift
from mc.reps import check_complete
from mc.util import fmt
from mc.structures import (
    DISTORTIONS, distort, expand, found_operations, lattice_little, memoise_symmetry_search, near_ops, orbit_structure,
    same_operations, transform_structure,
)

RULE = (
    "one case = (Hall number, cell the crystal is given in, k vector, method, reciprocal basis); the crystal "
    "is two generic orbits of the group, and the operations found in it must be exactly the group"
)
ASSUMPTIONS = ["supercells for which spglib's own symmetry search returns nothing are left out and counted under skipped_no_dataset", "the operations a distorted crystal has within symprec are those spglib's search reports for it"]
CHUNK = 1
I3 = [[F(int(i == j)) for j in range(3)] for i in range(3)]
SKEW = [[F(1), F(1), F(0)], [F(0), F(1), F(0)], [F(0), F(0), F(1)]]
CYC = [[F(0), F(1), F(0)], [F(0), F(0), F(1)], [F(1), F(0), F(0)]]


def cells(ops, tier):
    sym = centring_symbol(ops)
    prim = [[F(x) for x in r] for r in STD_PRIMITIVE[sym]]
    out = [("given", I3)]
    if sym != "P":
        out.append(("primitive", prim))
    out.append(("cyclic", CYC))
    out.append(("skewed", fmat_mul(prim, SKEW)))
    if tier == "thorough" and len(ops) <= 48:
        out.append(("supercell", [[F(2), F(0), F(0)], [F(0), F(1), F(0)], [F(0), F(0), F(1)]]))
        out.append(("supercell-diag", [[F(2 if i == j else 0) for j in range(3)] for i in range(3)]))
    return out


def sublattices(n):
    """Every sublattice of index n: Hermite normal forms (basis vectors in the columns)."""
    out = []
    for a in range(1, n + 1):
        for d in range(1, n + 1):
            f, rest = divmod(n, a * d)
            if rest == 0 and f > 0:
                out += [[[F(a), F(0), F(0)], [F(b), F(d), F(0)], [F(c), F(e), F(f)]] for b in range(d) for c in range(f) for e in range(f)]
    return out


def supercells(ops, number, tier):
    """(name, basis) of supercells of the primitive cell: all sublattices of index 2, 3 (and 4), in turn by ``number``."""
    prim = [[F(x) for x in r] for r in STD_PRIMITIVE[centring_symbol(ops)]]
    out = []
    for n in (2, 3, 4, 5) if tier == "thorough" else (2, 3, 4):
        for i, H in enumerate(sublattices(n)):
            out.append((f"supercell {n}.{i}", fmat_mul(prim, H)))
    most = 48 if tier == "quick" else 96
    out = [c for c in out if n_ops(ops, c[1]) <= most]
    out = out if tier == "thorough" else [c for i, c in enumerate(out) if i % 31 == number % 31]
    odd = [(f"supercell {n}.{i}", fmat_mul(prim, H)) for n in (5, 6, 7) for i, H in enumerate(sublattices(n)) if n > 5 or tier == "quick"]
    return out + [c for i, c in enumerate(odd) if i % 151 == number % 151 and n_ops(ops, c[1]) <= most]


def lefthanded(ops, number):
    """Cells with axes of the other handedness."""
    prim = [[F(x) for x in r] for r in STD_PRIMITIVE[centring_symbol(ops)]]
    swap = [[F(0), F(1), F(0)], [F(1), F(0), F(0)], [F(0), F(0), F(1)]]
    return [("left-handed", fmat_mul(prim, swap) if number % 2 else [[-x for x in r] for r in I3])]


def n_ops(ops, P):
    cen = len(centring_vectors(ops))
    det = abs(float(np.linalg.det(np.array([[float(x) for x in r] for r in P]))))
    return len(ops) // cen * max(1, round(det * cen))


def kset(tier):
    ks = dedupe(kgrid(2) + [(F(1, 3), F(1, 3), F(0)), (F(1, 3), F(1, 3), F(1, 2)), (F(1, 4), F(1, 4), F(1, 4)),
                            (F(1), F(0), F(0)), (F(1), F(1, 2), F(0)), (F(0), F(0), F(3, 2))] + LINES[::4])
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES + [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(0), F(1)), (F(1), F(1, 2), F(0))])
    return ks


def bounds(tier):
    return (f"all 530 Hall numbers x cells (given, primitive, cyclically permuted, skewed primitive"
            f"{', two supercells' if tier == 'thorough' else ''}; supercells of the primitive cell: {'two or so of ' if tier == 'quick' else ''}all sublattices of index 2 to {4 if tier == 'quick' else 5}, some of index up to 7; left-handed axes) x star representatives of {len(kset(tier))} k vectors; the same crystals with a strain or displacements of "
            "1e-4 and symprec 1e-2, 1e-6 or default")


def tasks(tier):
    return [(h, tier) for h in range(1, 531)] + [(-h, tier) for h in range(1, 531)] + [(h, tier, "supercells") for h in range(1, 531)]


NEAR = ((F(0), F(0), F(0)), (F(1, 2), F(0), F(1, 2)), (F(0), F(1, 2), F(0)), (F(1, 3), F(1, 3), F(0)), (F(1, 2), F(1, 2), F(1, 2)), (F(1, 5), F(0), F(0)))


def distorted(task, rec):
    """Crystals whose symmetry is only approximate: the operations are those within symprec."""
    from spgrep import get_spacegroup_irreps as G

    h, tier = -task[0], task[1]
    conv = hall_conventional(h)
    base = orbit_structure(conv, "axes")
    cl = cells(conv, "quick")
    for ci, (cname, P) in enumerate(cl):
        if tier == "quick" and ci != h % len(cl):
            continue
        exp = expand(conv, P)
        cell0 = transform_structure(base, P)
        for di, (dname, how, kw, whole) in enumerate(DISTORTIONS):
            cell = distort(cell0, how)
            ops = found_operations(exp, cell, kw.get("symprec", 1e-5), whole)
            if ops is None:
                rec.count("skipped_no_dataset")
                continue
            cen = centring_vectors(ops)
            for ki, k in enumerate(NEAR):
                if tier == "quick" and (ki + di + h) % 3:
                    continue
                kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
                for method in ("Neto", "random") if tier != "quick" else (("Neto", "random")[(ki + h) % 2],):
                    name = f"hall={h} cell={cname} {dname} k={','.join(map(str, k))} method={method}"
                    one(G, rec, name, ops, cen, cell, kk, kfloat(kk), None, method, kw)


def larger(task, rec):
    """The crystal described in supercells: all of index 2 and 3, and of index 4."""
    import spglib
    from spgrep import get_spacegroup_irreps as G

    h, tier = task[:2]
    conv = hall_conventional(h)
    base = orbit_structure(conv, "axes")
    for ci, (cname, P) in enumerate(supercells(conv, h, tier) + lefthanded(conv, h)):
        exp = expand(conv, P)
        cell = transform_structure(base, P)
        found = spglib.get_symmetry_dataset(cell, symprec=1e-5)
        if found is None or match_ops(exp, found["rotations"], found["translations"]) is None:
            rec.count("skipped_no_dataset")
            continue
        cen = centring_vectors(exp)
        for ki, k in enumerate(NEAR):
            if tier == "quick" and (ki + ci + h // 31) % 2:
                continue
            kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
            method = ("Neto", "random")[(ki + h) % 3 == 0]
            name = f"hall={h} {cname} k={fmt(k)} method={method}"
            if (ki + ci) % 2:
                S = np.array([[1.0, 1, 0], [0, 2, 0], [0, 1, -1]])
                one(G, rec, name + " reciprocal=other", exp, cen, cell, kk, kfloat(kk) @ np.linalg.inv(S), S @ np.linalg.inv(cell[0]).T, method)
            else:
                one(G, rec, name, exp, cen, cell, kk, kfloat(kk), None, method)


def match_ops(exp, R, t, tr=None):
    """Exact operations in the returned order, or None if the returned set differs from the expected."""
    if len(R) != len(exp):
        return None
    want = {(key(r), mod1(v), 0 if exp.tr is None else int(exp.tr[i])) for i, (r, v) in enumerate(zip(exp.R, exp.t))}
    out_t, got = [], set()
    for i in range(len(R)):
        try:
            v = frac_vec(t[i])
        except ValueError:
            return None
        out_t.append(v)
        got.add((key(R[i]), mod1(v), 0 if tr is None else int(tr[i])))
    if got != want:
        return None
    return Ops(R, out_t, tr)


def check(task, rec):
    memoise_symmetry_search()
    from spgrep import get_spacegroup_irreps as G

    if task[0] < 0:
        distorted(task, rec)
        return
    if len(task) > 2:
        larger(task, rec)
        return
    h, tier = task
    conv = hall_conventional(h)
    base = orbit_structure(conv, "axes")
    for ci, (cname, P) in enumerate(cells(conv, tier)):
        exp = expand(conv, P)
        cell = transform_structure(base, P)
        dual = np.linalg.inv(cell[0]).T
        cen = centring_vectors(exp)
        for ki, k in enumerate(star_representatives_crystal(conv, kset(tier))):
            kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
            for method in ("Neto", "random"):
                if tier == "quick" and (ki + ci + (method == "random")) % 2:
                    continue
                cname_full = f"hall={h} cell={cname} k={','.join(map(str, k))} method={method}"
                variants = [("dual", kfloat(kk), None)]
                if (ki + ci) % 3 == 0:
                    S = np.array([[1.0, 1, 0], [0, 2, 0], [0, 1, -1]])
                    variants.append(("other", kfloat(kk) @ np.linalg.inv(S), S @ dual))
                for vn, kf, rl in variants:
                    one(G, rec, f"{cname_full} reciprocal={vn}", exp, cen, cell, kk, kf, rl, method)


def star_representatives_crystal(conv, ks):
    # stars modulo the reciprocal lattice of the conventional cell only: always a subset of the truth
    seen, out = set(), []
    from mc.exact import mat_vec
    rots = np.unique(conv.R, axis=0)
    for k in ks:
        if k in seen:
            continue
        out.append(k)
        for R in rots:
            seen.add(mat_vec(R.T, k))
    return out


def one(G, rec, name, exp, cen, cell, kk, kf, rl, method, kw=None):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            irreps, R, t, mp = G(*cell, kpoint=kf, method=method, reciprocal_lattice=rl, **(kw or {}))
        except Exception as e:
            rec.violation(name, f"raised {e!r}"[:300])
            return
    if kw is None:
        ops = match_ops(exp, R, t)
    else:
        ops = near_ops(exp, R, t)
        ops = ops if ops is not None and same_operations(ops, exp) else None
    if ops is None:
        rec.violation(name, f"returned operations ({len(R)}) are not the symmetry operations of the crystal ({len(exp)})")
        return
    li = lattice_little(ops, kk, cen)
    order = [int(i) for i in mp]
    if sorted(order) != li:
        rec.violation(name, f"little group {order}, exact little group {li}")
        return
    li = order
    m = Model(ops.subset(li), kk)
    rec.model(len(li), len(li) ** 2, len(irreps))
    if [x for x in w if issubclass(x.category, UserWarning)]:
        rec.violation(name, f"warning: {w[-1].message}")
        return
    msg = check_complete(irreps, m.table, m.phase_complex(), len(li), quot=len(cen))
    if msg is None:
        phase = m.little_phase()
        I = key(np.eye(3, dtype=int))
        for a, D in enumerate(irreps):
            for i, j in enumerate(li):
                if key(ops.R[j]) == I and np.abs(D[i] - phase[i] * np.eye(D.shape[1])).max() > 1e-6:
                    msg = f"irrep {a}: translation {tuple(map(str, ops.t[j]))} is not exp(-2 pi i k.t)"
    if msg:
        rec.violation(name, msg)
        return
    if len(li) > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: {len(exp)} operations, little group {len(li)}, dimensions {sorted(x.shape[1] for x in irreps)}")
