"""C30: symmetry-adapted displacement patterns and spin orbitals of crystals, from the structure to the basis."""
from __future__ import annotations

from fractions import Fraction as F

import numpy as np

from mc.exact import dedupe, fmat_mul, hall_conventional, kfloat, kgrid, mat_vec, mod1
from mc.gen import LINES, STD_PRIMITIVE, centring_symbol, lattice_for
from mc.props.c02 import CYC, I3, SKEW, lefthanded, star_representatives_crystal, sublattices
from mc.reps import chars
from mc.structures import memoise_symmetry_search, transform_structure
from mc.util import call, fmt

RULE = (
    "one case = (crystal, cell, k vector, irrep): the displacements (and spin s-orbitals) of the atoms, a representation built here from the "
    "returned operations, are projected onto every returned irrep; the bases must transform with the irrep and together span everything"
)
CHUNK = 1
POINTS = [(F(0), F(0), F(0)), (F(1, 4), F(1, 4), F(1, 4)), (F(1, 2), F(1, 2), F(1, 2)), (F(1, 3), F(2, 3), F(1, 4)), (F(1, 8), F(1, 8), F(1, 8)),
          (F(13, 100), F(27, 100), F(41, 100)), (F(0), F(0), F(31, 100)), (F(19, 100), F(19, 100), F(0))]


def bounds(tier):
    return (f"530 Hall settings x {len(variants(tier))} choices of special and general atomic positions (up to {limit(tier)} atoms in the cell) x cells (given, primitive, cyclically "
            f"permuted, skewed primitive, supercells of index 2 and 3, left-handed axes) x star representatives of {len(kset(tier))} k vectors; displacements with complex and (2k = 0) real irreps, spin s-orbitals, decomposition")


def limit(tier):
    return 16 if tier == "thorough" else 8


def variants(tier):
    return ((0, 1, 2), (3, 4, 6), (5, 7, 0)) if tier == "thorough" else ((0, 1), (5, 6))


def kset(tier):
    ks = kgrid(2) + [(F(1, 3), F(1, 3), F(0)), (F(1, 3), F(1, 3), F(1, 2)), (F(1), F(1, 2), F(0))] + LINES[:: 3 if tier == "thorough" else 9]
    return dedupe(ks + (kgrid(3) if tier == "thorough" else []))


def tasks(tier):
    return [(h, tier) for h in range(530, 0, -1)]


def crystal(ops, points, most):
    """Orbits of the given points, one species each, as long as there are at most ``most`` atoms."""
    lattice = lattice_for(np.unique(ops.R, axis=0), "axes", 5.0)
    pos, num = [], []
    for s in points:
        orbit = []
        for R, t in zip(ops.R, ops.t):
            x = mod1(tuple(a + b for a, b in zip(mat_vec(R, POINTS[s]), t)))
            if x not in orbit:
                orbit.append(x)
        if any(x in pos for x in orbit) or len(pos) + len(orbit) > most:
            continue
        pos += orbit
        num += [s + 1] * len(orbit)
    if not pos:
        return None
    return lattice, np.array([[float(x) for x in p] for p in pos]), np.array(num)


def permutation(pos, num, R, t):
    """Where each atom goes and by which lattice translation; None if the operation is no symmetry."""
    out = []
    for i, p in enumerate(pos):
        d = R @ p + t - pos
        T = np.rint(d)
        j = np.flatnonzero((np.abs(d - T).max(axis=1) < 1e-4) & (num == num[i]))
        if len(j) != 1:
            return None
        out.append((int(j[0]), T[j[0]]))
    return out


def site_rep(perms, k):
    n, N = len(perms), len(perms[0])
    S = np.zeros((n, N, N), dtype=complex)
    for g, p in enumerate(perms):
        for i, (j, T) in enumerate(p):
            S[g, j, i] = np.exp(-2j * np.pi * np.dot(k, T))
    return S


def kron(a, b):
    return np.einsum("nij,nkl->nikjl", a, b).reshape(len(a), a.shape[1] * b.shape[1], -1)


def judge(rec, name, project, rep, irreps, folds=1):
    """Projection onto every irrep: transformation, count and completeness.  A cell of ``folds`` primitive cells holds waves of as
    many k vectors, of which one is asked for."""
    n, dim = rep.shape[0], rep.shape[1]
    cr = chars([rep])[0]
    rows, total, mults = [], 0, []
    for a, D in enumerate(irreps):
        B = call(rec, f"{name} irrep={a}", project, rep, D)
        if B is None:
            return None
        c = chars([D])[0]
        norm = (np.abs(c) ** 2).sum() / n
        want = int(np.rint(((np.conj(c) * cr).sum() / n / norm).real))
        mults.append(want)
        rec.model(n, n, len(B))
        if len(B) != want:
            rec.violation(f"{name} irrep={a}", f"{len(B)} bases, multiplicity is {want}")
            return None
        for b in B:
            b = np.asarray(b)
            if b.shape != (D.shape[1], dim):
                rec.violation(f"{name} irrep={a}", f"basis of shape {b.shape}")
                return None
            x = max(np.abs(np.conj(b) @ b.T - np.eye(len(b))).max(), np.abs(np.einsum("nij,aj->nia", rep, b) - np.einsum("bi,nba->nia", b, D)).max())
            if not x < 1e-6:
                rec.violation(f"{name} irrep={a}", f"basis not orthonormal or does not transform with the irrep ({x:.3g})")
                return None
            rows.append(b)
        total += want * D.shape[1]
    if total * folds != dim or np.linalg.matrix_rank(np.concatenate(rows), 1e-3) != total:
        rec.violation(name, f"bases of all irreps span {total} of {dim // folds} dimensions")
        return None
    if n > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: {dim} = sum of " + " + ".join(f"{m} x {D.shape[1]}" for m, D in zip(mults, irreps) if m))
    return mults


def check(task, rec):
    memoise_symmetry_search()
    import spglib
    from spgrep import get_spacegroup_irreps as G, get_spacegroup_spinor_irreps as GS
    from spgrep.irreps import decompose_representation, enumerate_small_representations
    from spgrep.representation import project_to_irrep as project

    h, tier = task
    conv = hall_conventional(h)
    sym = centring_symbol(conv)
    prim = [[F(x) for x in r] for r in STD_PRIMITIVE[sym]]
    cells = [("given", I3), ("primitive", prim), ("cyclic", CYC), ("skewed", fmat_mul(prim, SKEW))]
    if sym == "P":
        del cells[1]
    subs = sublattices(2) + sublattices(3)
    cells += [(f"supercell {i}", fmat_mul(prim, H)) for i, H in enumerate(subs) if tier == "thorough" or i == h % len(subs) or i == (h // 20 + 9) % len(subs)]
    cells += lefthanded(conv, h)
    for vi, points in enumerate(variants(tier)):
        base = crystal(conv, points, limit(tier) * {"P": 1, "A": 2, "B": 2, "C": 2, "I": 2, "R": 3, "F": 4}[sym])
        if base is None:
            rec.count("no_small_crystal")
            continue
        for ci, (cname, P) in enumerate(cells):
            if tier == "quick" and (ci + vi + h) % 2:
                continue
            cell = transform_structure(base, P)
            if len(cell[1]) > limit(tier):
                continue
            lattice, pos, num = cell
            if cname[:2] in ("su", "le") and spglib.get_symmetry_dataset(cell, symprec=1e-5) is None:
                rec.count("skipped_no_dataset")
                continue
            perms, Rlast = None, None
            for ki, k in enumerate(star_representatives_crystal(conv, kset(tier))):
                if tier == "quick" and (ki + vi + ci // 2) % 2:
                    continue
                kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
                kf = kfloat(kk)
                method = ("Neto", "random")[(ki + h + ci) % 2]
                name = f"hall={h} points={','.join(map(str, points))} cell={cname} k={fmt(k)} method={method}"
                out = call(rec, name, G, lattice, pos, num, kpoint=kf, method=method)
                if out is None:
                    continue
                irreps, R, t, mp = out
                if perms is None or not np.array_equal(R, Rlast):
                    perms, Rlast = [permutation(pos, num, r, v) for r, v in zip(R, t)], R
                    cart = np.array([lattice.T @ r @ np.linalg.inv(lattice.T) for r in R])
                if any(p is None for p in perms):
                    rec.violation(name, "a returned operation is not a symmetry of the crystal")
                    continue
                mp = np.asarray(mp)
                folds = sum(np.array_equal(r, np.eye(3)) for r in R)
                site = site_rep([perms[i] for i in mp], kf)
                rep = kron(site, cart[mp])
                mults = judge(rec, f"{name} displacements", project, rep, irreps, folds)
                if mults is not None and folds == 1:
                    parts = call(rec, f"{name} decomposition", decompose_representation, rep)
                    if parts is not None:
                        g = np.conj(chars(irreps)) @ chars(parts).T / len(mp) if len(parts) else np.zeros((len(irreps), 0))
                        want = np.array([int(m > 0) for m in mults])
                        if np.abs(np.abs(g).sum(axis=1) - want).max() > 1e-4 or len(parts) != want.sum():
                            rec.violation(f"{name} decomposition", "does not give each contained irrep once")
                if folds == 1:
                    two = [2 * x for x in kk]
                    if all(x.denominator == 1 for x in two):
                        out = call(rec, f"{name} real", enumerate_small_representations, R[mp], t[mp], kf, real=True, method=method)
                        if out is not None:
                            judge(rec, f"{name} real displacements", project, np.real(rep), out[0], folds)
                if (ki + vi) % 3 == 0:
                    out = call(rec, f"{name} spin", GS, lattice, pos, num, kpoint=kf, method=method)
                    if out is not None:
                        irr, w, U, Rs, ts, ms = out[:6]
                        ms = np.asarray(ms)
                        ps = perms if np.array_equal(Rs, R) and np.allclose(ts, t) else [permutation(pos, num, r, v) for r, v in zip(Rs, ts)]
                        judge(rec, f"{name} spin orbitals", project, kron(site_rep([ps[i] for i in ms], kf), U), irr, folds)
