"""Numerical checks of representation matrices against an exact model."""

from __future__ import annotations

import numpy as np

TOL = 1e-6


def product_residual(rep, table, factor, antilinear=None):
    """max_ij | D_i D_j^(*) - f_ij D_table[i,j] |"""
    rep = np.asarray(rep)
    n, d, _ = rep.shape
    worst = 0.0
    conj = np.conj(rep)
    for i in range(n):
        rhs = conj if (antilinear is not None and antilinear[i]) else rep
        prod = np.einsum("ab,jbc->jac", rep[i], rhs)
        exp = factor[i][:, None, None] * rep[table[i]]
        r = np.abs(prod - exp).max()
        if not r <= worst:
            worst = r
    return float(worst)


def unitary_residual(rep):
    d = rep.shape[1]
    return float(np.abs(np.einsum("iab,icb->iac", rep, np.conj(rep)) - np.eye(d)).max())


def chars(irreps):
    return np.array([np.einsum("ijj->i", np.asarray(r)) for r in irreps])


def gram(irreps):
    c = chars(irreps)
    return np.conj(c) @ c.T / c.shape[1]


def check_complete(irreps, model_table, factor, order, n_expected=None, tol=TOL, quot=1):
    """All documented guarantees of a complete set of unitary (projective) irreps.

    Returns None when everything holds, else a message.  ``quot``: number of listed operations per
    element of the quotient group whose dimensions square-sum to its order.
    """
    if not isinstance(irreps, (list, tuple)) or len(irreps) == 0:
        return f"no irreps returned ({type(irreps).__name__})"
    for a, r in enumerate(irreps):
        if r.ndim != 3 or r.shape[0] != order or r.shape[1] != r.shape[2]:
            return f"irrep {a}: shape {r.shape}, expected ({order}, d, d)"
        if not np.all(np.isfinite(r)):
            return f"irrep {a}: non-finite entries"
        x = unitary_residual(r)
        if not x < tol:
            return f"irrep {a} (dim {r.shape[1]}): not unitary, residual {x:.3g}"
        x = product_residual(r, model_table, factor)
        if not x < tol:
            return f"irrep {a} (dim {r.shape[1]}): multiplication rule violated, residual {x:.3g}"
    g = gram(irreps)
    x = np.abs(g - np.eye(len(irreps))).max()
    if not x < max(1e-4, tol):
        i, j = np.unravel_index(np.argmax(np.abs(g - np.eye(len(irreps)))), g.shape)
        kind = "reducible" if i == j else "equivalent pair"
        return f"character orthogonality violated at ({i},{j}): {g[i, j]:.4g} ({kind})"
    s = sum(r.shape[1] ** 2 for r in irreps)
    if s * quot != order:
        return f"sum of squared dimensions {s} * {quot} != {order}"
    if n_expected is not None and len(irreps) != n_expected:
        return f"{len(irreps)} irreps, exact class count says {n_expected}"
    return None
