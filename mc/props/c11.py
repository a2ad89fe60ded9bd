"""C11: symmetry-adapted bases from projection onto irreps."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc.exact import Model, kfloat, kgrid, little_indices, star_representatives
from mc.gen import LINES, cart, hall_std_primitive, lattice_for
from mc.reps import chars
from mc.util import call, classes, fmt, group_table, mismatches, orderings, refused, user_warnings

RULE = (
    "one case = (representation, irrep of the same group and factor system); the number of returned bases is compared with the exact "
    "multiplicity, each basis must transform with the irrep's own matrices"
)
CHUNK = 1


def bounds(tier):
    return (f"122 rotation sets x {{vector, rank-2, rank-3, rank-4 (order up to {8 if tier == 'thorough' else 4}), pseudovector, permutation of a generic orbit, direct sums, spinor, spinor x vector}} x 2-5 lattice "
            "orientations x both methods x real and complex irreps; 3 to 9 copies of an irrep in bases in which all projections are close to each other; representations with noise of 1e-9 to 1e-4; 530 Hall numbers x zone-boundary and line k vectors: small irrep x vector representation "
            "and sums of small irreps with multiplicities 1 to 3; mismatching sizes up to order 6 and dimension 3")


def tasks(tier):
    return [("shape", n, None, tier) for n in (1, 2, 3, 4, 6)] + [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("sg", h, None, tier) for h in range(530, 0, -1)]


def kron(a, b):
    n = len(a)
    return np.einsum("nij,nkl->nikjl", a, b).reshape(n, a.shape[1] * b.shape[1], -1)


def dsum(*reps):
    n = len(reps[0])
    d = sum(r.shape[1] for r in reps)
    out = np.zeros((n, d, d), dtype=np.result_type(*reps))
    o = 0
    for r in reps:
        out[:, o : o + r.shape[1], o : o + r.shape[1]] = r
        o += r.shape[1]
    return out


def mix(d):
    """A fixed unitary matrix without zero entries."""
    j = np.arange(d)
    return np.exp(2j * np.pi * (np.outer(j, j) / d + np.outer(j * j, np.ones(d)) / 7)) / np.sqrt(d)


def close_frame(r, small):
    """Orthonormal rows (r x (2r - 1)) whose first r - 1 columns are small and span a space close to each of the other columns."""
    j = np.arange(r)
    f = np.concatenate([small * np.eye(r)[:, : r - 1], np.exp(2j * np.pi * np.outer(j, j) / r) / np.sqrt(r)], axis=1)
    w, v = np.linalg.eigh(f @ f.conj().T)
    return (v * w**-0.5) @ v.conj().T @ f


def hidden_copies(A, B, r, small):
    """r copies of A and r - 1 of B, of equal dimension, in a basis in which the copies of A are hard to tell apart."""
    f = close_frame(r, small)
    P = f.conj().T @ f
    return np.einsum("ab,nij->naibj", P, A).reshape(len(A), -1, len(P) * A.shape[1]) + np.einsum("ab,nij->naibj", np.eye(len(P)) - P, B).reshape(len(A), -1, len(P) * A.shape[1])


def judge(rec, name, F, rep, D):
    n = len(rep)
    B = call(rec, name, F, rep, D)
    if B is None:
        return
    c, cr = chars([D])[0], chars([rep])[0]
    norm = (np.abs(c) ** 2).sum() / n
    mult = (np.conj(c) * cr).sum() / n / norm
    rec.model(n, n, len(B))
    want = int(np.rint(mult.real))
    assert abs(mult - want) < 1e-4, (name, mult)
    if len(B) != want:
        rec.violation(name, f"{len(B)} bases, multiplicity is {want}")
        return
    for b in B:
        b = np.asarray(b)
        if b.shape != (D.shape[1], rep.shape[1]) or not np.all(np.isfinite(b)):
            rec.violation(name, f"basis of shape {b.shape}")
            return
        x = np.abs(np.conj(b) @ b.T - np.eye(len(b))).max()
        if not x < 1e-6:
            rec.violation(name, f"basis vectors are not orthonormal ({x:.3g})")
            return
        x = np.abs(np.einsum("nij,aj->nia", rep, b) - np.einsum("bi,nba->nia", b, D)).max()
        if not x < 1e-6:
            rec.violation(name, f"basis does not transform with the irrep ({x:.3g})")
            return
    if B and np.linalg.matrix_rank(np.concatenate(B), 1e-3) != len(B) * D.shape[1]:
        rec.violation(name, "bases are linearly dependent")
        return
    if want > 0:
        rec.count("nontrivial")
    rec.sample(f"{name}: multiplicity {want} of dimension {D.shape[1]} in {rep.shape[1]}")


# size of the noise, tolerance of the caller, whether warnings are out of place, error allowed in the bases (noise above the
# tolerance: the number of bases only)
NOISE = ((1e-9, None, True, 1e-5), (1e-8, None, True, 1e-4), (1e-5, None, False, None), (1e-4, None, False, None), (1e-5, 1e-4, False, 0.05))


def noise(shape):
    """A fixed pattern with entries between -1 and 1."""
    x = np.arange(int(np.prod(shape)))
    return np.cos(1.7 * x + 0.3 * x**2).reshape(shape)


def noisy(rec, name, F, rep, D, want):
    """The representation is known only up to noise."""
    n, d = rep.shape[:2]
    pattern = noise(rep.shape)
    for eta, atol, quiet, tol in NOISE:
        nm = f"{name} noise={eta:g} atol={atol}"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                B = F(rep + eta * pattern, D, **({} if atol is None else dict(atol=atol)))
            except Exception as e:
                rec.violation(nm, f"raised {e!r}"[:300])
                continue
        rec.model(n, n, len(B))
        if len(B) != want:
            rec.violation(nm, f"{len(B)} bases, multiplicity is {want}")
        elif quiet and user_warnings(w):
            rec.violation(nm, f"warning: {user_warnings(w)[-1]}"[:300])
        elif B and tol and not max(np.abs(np.einsum("nij,aj->nia", rep, b) - np.einsum("bi,nba->nia", b, D)).max() for b in B) < tol:
            rec.violation(nm, "basis does not transform with the irrep")
        elif B and np.linalg.matrix_rank(np.concatenate(B), 1e-3) != len(B) * D.shape[1]:
            rec.violation(nm, "bases are linearly dependent")
        else:
            rec.count("nontrivial", int(want > 0))


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as PS,
        get_spacegroup_irreps_from_primitive_symmetry as G,
    )
    from spgrep.representation import project_to_irrep as F

    kind, h, R, tier = task
    if kind == "shape":
        for a, b in mismatches():
            if a[0] == h:
                refused(rec, f"projection of shape {a} on an irrep of shape {b}", lambda: F(np.ones(a), np.ones(b, dtype=complex)))
        rec.sample(f"sizes that do not match {h}")
        return
    if kind == "pg":
        R = np.array(R)
        det = np.rint(np.linalg.det(R))
        for oname, perm in orderings(len(R))[: 3 if tier == "thorough" else 2]:
            Q = R[perm]
            t = group_table(Q)
            n = len(Q)
            for ori in ("axes", "generic", "left", "permuted", "flipped") if tier == "thorough" else ("axes", "generic"):
                L = lattice_for(Q, ori)
                V = np.array([cart(L, r) for r in Q])
                A = V * det[perm][:, None, None]
                reg = np.zeros((n, n, n))
                for g in range(n):
                    reg[g, t[g], np.arange(n)] = 1
                reps = {"vector": V, "rank2": kron(V, V), "pseudovector": A, "sum": dsum(V, A, kron(V, A), V)}
                if n <= 16 or (ori == "generic" and oname == "as-listed") or tier == "thorough":
                    reps["orbit"] = reg
                if oname == "as-listed" and (ori == "generic" or tier == "thorough"):
                    reps["rank3"] = kron(reps["rank2"], V)
                    if n <= (8 if tier == "thorough" else 4):
                        reps["rank4"] = kron(reps["rank3"], V)
                if oname == "as-listed" and ori == "axes":
                    irr = call(rec, f"pointgroup of hall={h}", P, Q) or []
                    for a, D in enumerate(irr):
                        for rn in ("vector", "rank2", "sum"):
                            VV = {"vector": V, "rank2": reps["rank2"], "sum": dsum(V, V, reps["rank2"])}[rn]
                            want = int(np.rint((np.conj(chars([D])[0]) * chars([VV])[0]).sum().real / n))
                            noisy(rec, f"pointgroup of hall={h} irrep={a} rep={rn}", F, VV, D, want)
                        b = next((b for b in range(len(irr)) if b != a and irr[b].shape == D.shape), None)
                        for r, small in itertools.product((3, 5, 6, 9), (0.3, 1e-2, 1e-4)) if b is not None else ():
                            if D.shape[1] == 1 or r == 5:
                                judge(rec, f"pointgroup of hall={h} irrep={a} rep={r} close copies ({small:g})", F, hidden_copies(D, irr[b], r, small), D)
                for method in ("Neto", "random"):
                    for real in (False, True):
                        irr = call(rec, f"pointgroup of hall={h}", P, Q, method=method, real=real)
                        for a, D in enumerate(irr or []):
                            for rn, rep in reps.items():
                                judge(rec, f"pointgroup of hall={h} order={oname} lattice={ori} method={method} real={real} irrep={a} rep={rn}", F, rep, D)
                    out = call(rec, f"pointgroup of hall={h} spin", PS, L, Q, method=method)
                    if out is None:
                        continue
                    irr, omega, U = out
                    for a, D in enumerate(irr):
                        for rn, rep in (("spinor", U), ("spinor x vector", kron(U, V)), ("2 spinors", dsum(U, U))):
                            judge(rec, f"pointgroup of hall={h} order={oname} lattice={ori} method={method} spin irrep={a} rep={rn}", F, rep, D)
        return
    ops = hall_std_primitive(h)
    Rf, tf = ops.floats()
    ks = star_representatives(ops, kgrid(2) + LINES + kgrid(3)) if tier == "thorough" else star_representatives(ops, kgrid(2)[1:] + LINES[h % 8 :: 8])
    for i, k in enumerate(ks):
        li = little_indices(ops, k)
        L = lattice_for(Rf, ("axes", "generic")[i % 2])
        V = np.array([cart(L, r) for r in Rf[li]])
        method = ("Neto", "random")[(i + h) % 2]
        out = call(rec, f"hall={h} k={fmt(k)}", G, Rf, tf, kfloat(k), method=method)
        if out is None:
            continue
        irr = out[0]
        multi = dsum(*[irr[a] for a in range(min(3, len(irr))) for _ in range(a + 1)])
        W = mix(multi.shape[1])
        mixed = np.einsum("ij,njk,lk->nil", W, multi, np.conj(W))
        for a, D in enumerate(irr):
            name = f"hall={h} k={fmt(k)} method={method} irrep={a}"
            judge(rec, f"{name} rep=irrep0 x vector", F, kron(irr[0], V), D)
            judge(rec, f"{name} rep=sum", F, multi, D)
            if multi.shape[1] <= 12:
                judge(rec, f"{name} rep=mixed sum", F, mixed, D)
