"""C20: the matrix intertwining two equivalent irreps, and the refusal for inequivalent ones."""
from __future__ import annotations

import warnings

import numpy as np

from mc.exact import kfloat, kgrid, star_representatives
from mc.gen import LINES, hall_std_primitive, lattice_for
from mc.props.c11 import mix, noise
from mc.util import call, classes, fmt, orderings, user_warnings

RULE = "one case = (irrep, unitary change of its basis or another irrep of the same dimension); the returned matrix is substituted in the defining equation"
CHUNK = 2


def bounds(tier):
    return ("122 rotation sets x {ordinary, spin} irreps of both methods and 530 Hall numbers x 16 to 40 k vectors: every ordered pair of irreps of equal "
            "dimension, every irrep against 9 unitary changes of basis (identity, permutation, phases, signs, dense unitaries; with noise of 1e-8 too) and against the same irrep of the other method")


def tasks(tier):
    return [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("sg", h, None, tier) for h in range(530, 0, -1)]


def unitaries(d):
    j = np.arange(d)
    yield "identity", np.eye(d)
    yield "negative", -np.eye(d)
    yield "scalar phase", np.exp(2j * np.pi / 7) * np.eye(d)
    yield "real after i", 1j * np.eye(d)
    yield "phases", np.diag(np.exp(2j * np.pi * (j + 1) / 5))
    yield "signs", np.diag((-1.0) ** j)
    yield "permutation", np.roll(np.eye(d), 1, axis=0)
    yield "dense", mix(d)
    yield "dense 2", mix(d) @ np.diag(np.exp(1j * (j + 0.3))) @ mix(d).T


def one(I, rec, name, A, B, equivalent, eta=0):
    """eta: size of the noise the matrices are given with."""
    n, d, _ = A.shape
    exact = A, B
    if eta:
        A, B = A + eta * noise(A.shape), B - eta * noise(A.shape)
        name = f"{name} noise={eta:g}"
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            M = I(A, B)
        except Exception as e:
            rec.violation(name, f"raised {e!r}"[:300])
            return
    uw = user_warnings(w)
    rec.model(n, n)
    A, B = exact
    tol = 1e-6 + 1e3 * eta
    M = np.asarray(M)
    if M.shape != (d, d) or not np.all(np.isfinite(M)):
        rec.violation(name, f"matrix of shape {M.shape} or with non-finite entries")
        return
    if not equivalent:
        if np.abs(M).max() > 1e-6:
            rec.violation(name, "nonzero matrix for inequivalent irreps")
        elif not uw:
            rec.violation(name, "no warning for inequivalent irreps")
        return
    rec.count("nontrivial")
    x = np.abs(np.einsum("nij,jk->nik", A, M) - np.einsum("ij,njk->nik", M, B)).max()
    if not x < tol:
        rec.violation(name, f"rep1 M = M rep2 violated by {x:.3g}")
    elif abs(np.linalg.det(M) - 1) > tol:
        rec.violation(name, f"determinant {np.linalg.det(M):.6g}")
    elif np.abs(M @ np.conj(M.T) - np.eye(d)).max() > tol:
        rec.violation(name, "not unitary")
    elif uw:
        rec.violation(name, f"warning: {uw[0]}")
    elif d > 1:
        rec.sample(f"{name}: dimension {d}")


def judge(I, rec, name, irreps, other):
    for a, A in enumerate(irreps):
        A = np.asarray(A, dtype=complex)
        for wn, W in unitaries(A.shape[1]):
            one(I, rec, f"{name} irrep={a} basis={wn}", A, np.einsum("ji,njk,kl->nil", np.conj(W), A, W), True)
            if wn.startswith("dense"):
                one(I, rec, f"{name} irrep={a} basis={wn}", A, np.einsum("ji,njk,kl->nil", np.conj(W), A, W), True, 1e-8)
        for b, B in enumerate(other):
            if B.shape == A.shape:
                eq = abs(np.einsum("nii,njj->", np.conj(A), np.asarray(B))) > 0.5 * len(A)
                one(I, rec, f"{name} irreps={a},{b}", A, np.asarray(B, dtype=complex), eq)


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as PS,
        get_spacegroup_irreps_from_primitive_symmetry as G,
    )
    from spgrep.representation import get_intertwiner as I

    kind, h, R, tier = task
    if kind == "pg":
        R = np.array(R)
        for oname, perm in orderings(len(R))[: 4 if tier == "thorough" else 2]:
            Q = R[perm]
            L = lattice_for(Q, "generic")
            name = f"pointgroup of hall={h} order={oname}"
            a, b = call(rec, name, P, Q), call(rec, name, P, Q, method="random")
            if a is not None and b is not None:
                judge(I, rec, f"{name} ordinary", a, b)
            a, b = call(rec, name, PS, L, Q), call(rec, name, PS, L, Q, method="random")
            if a is not None and b is not None:
                judge(I, rec, f"{name} spin", a[0], b[0])
        return
    ops = hall_std_primitive(h)
    R, t = ops.floats()
    ks = star_representatives(ops, kgrid(2)[1:] + (kgrid(3) + LINES if tier == "thorough" else LINES[h % 3 :: 3]))
    for k in ks:
        name = f"hall={h} k={fmt(k)}"
        a, b = call(rec, name, G, R, t, kfloat(k)), call(rec, name, G, R, t, kfloat(k), method="random")
        if a is not None and b is not None:
            judge(I, rec, name, a[0], b[0])
