"""C21: validators accept exactly what satisfies their defining equations."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, centring_vectors, dedupe, hall_conventional, key, kfloat, kgrid, little_indices, star_representatives
from mc.gen import LINES, hall_std_primitive, lattice_for
from mc.reps import product_residual
from mc.structures import lattice_little
from mc.util import call, classes, fmt, group_table, orderings

RULE = (
    "one case = one representation or factor system, as computed or with one matrix, one entry or one phase altered; the verdict is compared with the "
    "residual of the defining equation evaluated here (cases within a factor 100 of the tolerance are left out)"
)
CHUNK = 2


def bounds(tier):
    return ("122 rotation sets x {ordinary, spin} irreps and 530 Hall numbers x k vectors (primitive and conventional cells): accepted unchanged; every matrix in turn "
            "negated, multiplied by i, rotated by 0.01 rad, shifted by 0.01 in one entry, exchanged with its neighbour; every entry of the factor system altered "
            f"({'all' if tier == 'thorough' else 'up to 24 places each, spread over the group'})")


def tasks(tier):
    return [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("sg", h, None, tier) for h in range(530, 0, -1)]


def places(n, tier, m=24):
    return list(range(n)) if tier == "thorough" or n <= m else sorted({(i * n) // m for i in range(m)})


def altered(D, tier):
    n, d, _ = D.shape
    for i in places(n, tier, 12):
        for what in ("negated", "times i", "phase", "entry", "exchanged", "transposed"):
            X = np.array(D, dtype=complex)
            if what == "negated":
                X[i] *= -1
            elif what == "times i":
                X[i] *= 1j
            elif what == "phase":
                X[i] *= np.exp(0.01j)
            elif what == "entry":
                X[i, (i + 1) % d, (2 * i) % d] += 0.01
            elif what == "exchanged":
                if n == 1:
                    continue
                X[[i, (i + 1) % n]] = X[[(i + 1) % n, i]]
            else:
                X[i] = X[i].T
            yield f"{what} at {i}", X


def pairs(n, tier):
    """Pairs of places: all of them in small groups, else a spread with every row and column and both orders."""
    if n * n <= 64 or tier == "thorough":
        return [(i, j) for i in range(n) for j in range(n)]
    s = max(1, n // 8)
    return sorted({(i, (i * m + o) % n) for i in range(0, n, s) for m, o in ((1, 0), (3, 1), (n - 1, 2))})


def altered_factor(f, n, tier):
    for c, (i, j) in enumerate(pairs(n, tier)):
        X = np.array(f, dtype=complex)
        X[i, j] *= (-1, 1j, np.exp(0.01j))[c % 3]
        yield f"factor at {i},{j}", X, (i, j)


def verdict(rec, name, got, residual):
    """Compare a truth value with a residual."""
    if got is None:
        return
    if 1e-9 < residual < 1e-3:
        return
    want = residual <= 1e-9
    rec.model(1, 1)
    if bool(got) != want:
        rec.violation(name, f"verdict {bool(got)}, the defining equation holds within {residual:.3g}")
    elif not want:
        rec.count("nontrivial")


def unitary_res(X):
    d = X.shape[1]
    return float(np.abs(np.einsum("nij,nkj->nik", X, np.conj(X)) - np.eye(d)).max())


def spacegroup_res(ops, k, X, omega):
    """Residual of D_i D_j = omega_ij exp(-2 pi i k.(t_ij - t_m)) D_m with m the first operation with the product's rotation (all of them when D is a representation)."""
    R, t = ops.floats()
    first = {}
    for i, r in enumerate(R):
        first.setdefault(key(r), i)
    worst = 0.0
    kf = kfloat(k)
    for i in range(len(R)):
        for j in range(len(R)):
            m = first[key(R[i] @ R[j])]
            ph = np.exp(-2j * np.pi * kf @ (R[i] @ t[j] + t[i] - t[m]))
            worst = max(worst, float(np.abs(X[i] @ X[j] - omega[i, j] * ph * X[m]).max()))
    return worst


def cocycle_res(t, f):
    n = len(t)
    i = np.arange(n)
    a = f[i[:, None, None], t[None]] * f[None]
    b = f[t[:, :, None], i[None, None, :]] * f[:, :, None]
    return float(np.abs(a - b).max())


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as PS,
        get_spacegroup_irreps_from_primitive_symmetry as G,
        get_spacegroup_spinor_irreps_from_primitive_symmetry as GS,
    )
    from spgrep.group import check_cocycle_condition as CC, get_factor_system_from_little_group as FS
    from spgrep.irreps import is_equivalent_irrep as EQ
    from spgrep.representation import check_spacegroup_representation as SR, is_representation as IR, is_unitary as U

    kind, h, R, tier = task
    if kind == "pg":
        R = np.array(R)
        for oname, perm in orderings(len(R))[: 3 if tier == "thorough" else 2]:
            Q = R[perm]
            n = len(Q)
            t = group_table(Q)
            L = lattice_for(Q, "axes")
            name = f"pointgroup of hall={h} order={oname}"
            ordinary, spin = call(rec, name, P, Q), call(rec, name, PS, L, Q)
            if ordinary is None or spin is None:
                continue
            for fname, irr, f in (("ordinary", ordinary, None), ("spin", spin[0], np.asarray(spin[1]))):
                ff = np.ones((n, n)) if f is None else f
                for a, D in enumerate(irr):
                    D = np.asarray(D, dtype=complex)
                    nm = f"{name} {fname} irrep={a}"
                    small = n * D.shape[1] <= 48 or tier == "thorough"
                    verdict(rec, nm + " is_representation", call(rec, nm, IR, D, t, f), product_residual(D, t, ff))
                    verdict(rec, nm + " is_unitary", call(rec, nm, U, D), unitary_res(D))
                    for wn, X in altered(D, tier):
                        verdict(rec, f"{nm} {wn} is_unitary", call(rec, nm, U, X), unitary_res(X))
                        if small or wn.endswith(" 0"):
                            verdict(rec, f"{nm} {wn} is_representation", call(rec, nm, IR, X, t, f), product_residual(X, t, ff))
                    r0 = product_residual(D, t, ff)
                    for wn, X, (i, j) in altered_factor(ff, n, tier) if n <= 8 or a in (0, len(irr) - 1) else ():
                        # only the product (i, j) changes
                        verdict(rec, f"{nm} {wn}", call(rec, nm, IR, D, t, X), max(r0, abs(X[i, j] - ff[i, j]) * np.abs(D[t[i, j]]).max()))
                    if n <= 8 or a == len(irr) - 1:
                        for i, j in pairs(n, tier):
                            X = t.copy()
                            X[i, j] = X[i, (j + 1) % n]
                            verdict(rec, f"{nm} table entry {i},{j}", call(rec, nm, IR, D, X, ff), max(r0, np.abs(D[X[i, j]] - D[t[i, j]]).max()))
                    # a representation that is not unitary, and a rescaled one that is unitary no longer
                    d = D.shape[1]
                    S = np.eye(d) + 0.5 * np.diag(np.ones(d - 1), 1) if d > 1 else np.eye(1)
                    X = np.einsum("ij,njk,kl->nil", S, D, np.linalg.inv(S))
                    verdict(rec, f"{nm} skewed is_representation", call(rec, nm, IR, X, t, f), product_residual(X, t, ff))
                    verdict(rec, f"{nm} skewed is_unitary", call(rec, nm, U, X), unitary_res(X))
                    verdict(rec, f"{nm} doubled is_unitary", call(rec, nm, U, 2 * D), unitary_res(2 * D))
                    if f is not None and n > 1:
                        verdict(rec, f"{nm} without factor system", call(rec, nm, IR, D, t), product_residual(D, t, np.ones((n, n))))
                    for b, B in enumerate(irr):
                        ca, cb = np.einsum("nii->n", D), np.einsum("nii->n", np.asarray(B))
                        got = call(rec, nm, EQ, ca, cb)
                        if got is not None and bool(got) != (a == b):
                            rec.violation(f"{nm} against {b}", f"equivalence reported as {got}")
                    for z in (-1, 1j, np.exp(2j * np.pi / 3), 0) if a < 3 or tier == "thorough" else (-1,):
                        # not characters of equivalent irreps: their products do not sum up to the order
                        ca = np.einsum("nii->n", D).astype(complex)
                        for cb, cc in ((ca, z * ca), (z * ca, ca)):
                            got = call(rec, nm, EQ, cb, cc)
                            rec.model(1, 1)
                            if got:
                                rec.violation(f"{nm} against {z:.3g} times itself", "reported as equivalent")
                verdict(rec, f"{name} {fname} cocycle", call(rec, name, CC, Q, ff) if n <= 24 or tier == "thorough" else None, cocycle_res(t, ff))
                if n <= 8:
                    for i in range(n):
                        for j in range(n):
                            for z in (-1, 1j, np.exp(0.02j), 0.5):
                                X = np.array(ff, dtype=complex)
                                X[i, j] *= z
                                verdict(rec, f"{name} {fname} cocycle entry {i},{j} times {z:.3g}", call(rec, name, CC, Q, X), cocycle_res(t, X))
                if n > 2:
                    got = call(rec, name, CC, Q[:-1], ff[:-1, :-1])
                    if got:
                        rec.violation(f"{name} cocycle of a subset", "accepted for operations that are not a group")
        return
    for cell in ("primitive", "conventional"):
        ops = hall_std_primitive(h) if cell == "primitive" else hall_conventional(h)
        cen = centring_vectors(ops)
        prim = cell == "primitive"
        if not prim and (len(cen) == 1 or (len(ops) > 48 and tier == "quick")):
            continue
        ks = star_representatives(hall_std_primitive(h), dedupe(kgrid(2)[1:] + LINES[h % 8 :: 8])) if prim else [kgrid(2)[1], kgrid(2)[6], LINES[h % len(LINES)]]
        if tier == "quick":
            ks = ks[h % 2 :: 2]
        for i, k in enumerate(ks):
            sub = ops.subset(lattice_little(ops, k, cen))
            R, t = sub.floats()
            n = len(sub)
            name = f"hall={h} cell={cell} k={fmt(k)}"
            if prim:
                out = call(rec, name, G, R, t, kfloat(k))
                spin = call(rec, name, GS, lattice_for(ops.R), R, t, kpoint=kfloat(k)) if i % 2 else None
                if out is None:
                    continue
                reps = [("", D, None) for D in out[0][:3]] + ([("spin ", D, spin[1]) for D in spin[0][:2]] if spin else [])
            else:
                # one-dimensional representation of the translations times a trivial or induced one
                reps = conventional_reps(rec, name, G, sub, cen, k)
            for a, (pre, D, w) in enumerate(reps):
                D = np.asarray(D, dtype=complex)
                omega = np.ones((n, n)) if w is None else np.asarray(w)
                kw = {} if w is None else dict(spinor_factor_system=omega)
                nm = f"{name} {pre}irrep={a}"
                verdict(rec, nm, call(rec, nm, SR, R, t, kfloat(k), D, **kw), spacegroup_res(sub, k, D, omega))
                alts = list(altered(D, "quick"))
                for wn, X in alts if n <= 4 or tier == "thorough" else alts[(h + a) % 5 :: 5][: 3 if n > 16 else 8]:
                    verdict(rec, f"{nm} {wn}", call(rec, nm, SR, R, t, kfloat(k), X, **kw), spacegroup_res(sub, k, X, omega))
                k2 = kfloat(k) + np.array([0.25, 0.0, 0.5])
                if n > 1 and not prim:
                    from fractions import Fraction as F
                    kk = (k[0] + F(1, 4), k[1], k[2] + F(1, 2))
                    verdict(rec, f"{nm} at another k", call(rec, nm, SR, R, t, k2, D, **kw), spacegroup_res(sub, kk, D, omega))


def conventional_reps(rec, name, G, sub, cen, k):
    """Small representations on all listed operations, from the primitive ones by exp(-2 pi i k.t)."""
    from mc.exact import lattice_basis, mod1, transform, unique_rotations

    P = lattice_basis(cen)
    tp = transform(sub, P)
    u = unique_rotations(tp, reduce=True)
    kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
    out = call(rec, name, G, *u.floats(), kfloat(kk))
    if out is None:
        return []
    idx = {key(r): i for i, r in enumerate(u.R)}
    pos = {int(m): i for i, m in enumerate(out[1])}
    reps = []
    for D in out[0][:2]:
        X = []
        for r, t in zip(tp.R, tp.t):
            i = idx[key(r)]
            ph = np.exp(-2j * np.pi * float(sum(a * (b - c) for a, b, c in zip(kk, t, u.t[i]))))
            X.append(ph * D[pos[i]])
        reps.append(("", np.array(X), None))
    return reps
