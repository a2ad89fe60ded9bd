"""Exact-convention checks for SU(2) lifts and co-representations."""
from __future__ import annotations

import numpy as np

from mc.gen import cart
from mc.reps import product_residual, unitary_residual, chars

TOL = 1e-6
LOOSE = (TOL, 2e-3)  # exact lattices, lattices strained by 1e-4
SIGMA = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
TR = -1j * SIGMA[1]


def expected_lift(lattice, R):
    """exp(-i theta n.sigma / 2), 0 <= theta <= pi, of the proper part (its sign is a matter of convention)."""
    C = cart(lattice, R)
    if np.linalg.det(C) < 0:
        C = -C
    c = np.clip((np.trace(C) - 1) / 2, -1, 1)
    if c > 1 - 1e-9:
        return np.eye(2, dtype=complex)
    if c < -1 + 1e-9:
        S = (C + np.eye(3)) / 2  # n n^T
        i = int(np.argmax(np.diag(S)))
        n = S[i] / np.sqrt(S[i, i])
        for x in n:
            if abs(x) > 1e-7:
                if x < 0:
                    n = -n
                break
        theta = np.pi
    else:
        theta = np.arccos(c)
        n = np.array([C[2, 1] - C[1, 2], C[0, 2] - C[2, 0], C[1, 0] - C[0, 1]])
        n = n / np.linalg.norm(n)
    return np.cos(theta / 2) * np.eye(2) - 1j * np.sin(theta / 2) * np.einsum("a,abc->bc", n, SIGMA)


def check_lift(lattice, R, tr, U, omega, table, tol=TOL):
    """tol > TOL: the lattice has the symmetry only approximately."""
    n = len(R)
    U = np.asarray(U)
    omega = np.asarray(omega)
    if U.shape != (n, 2, 2) or omega.shape != (n, n):
        return f"shapes {U.shape}, {omega.shape} for {n} operations"
    if not np.all(np.abs(np.abs(omega) - 1) < 1e-9) or not np.all(np.abs(omega.imag) < 1e-9):
        return "factor system has entries other than +1, -1"
    for i in range(n):
        e = expected_lift(lattice, R[i])
        if tr is not None and tr[i]:
            e = e @ TR
        x = np.abs(U[i] - e).max()
        # U and -U rotate spin alike; the identity is fixed
        if not np.array_equal(R[i], np.eye(3)) or (tr is not None and tr[i]):
            x = min(x, np.abs(U[i] + e).max())
        if not unitary_residual(U[i : i + 1]) < TOL:
            return f"SU(2) rotation {i} is not unitary"
        if not x < tol:
            return f"SU(2) rotation {i} deviates from exp(-i theta n.sigma / 2), up to sign, by {x:.3g}"
    x = product_residual(U, table, omega, tr)
    if not x < tol:
        return f"U_i U_j = omega_ij U_k violated by {x:.3g}"
    return None


def check_corep_set(coreps, indicators, omega, m, anti, quot=1, tol=TOL):
    """m: exact Model with time reversal flags; coreps must be the complete list of inequivalent
    irreducible unitary co-representations with factor omega * phase."""
    n = m.n
    slack = max(1e-4, 10 * tol)
    tr = np.asarray(m.tr, dtype=bool)
    if np.asarray(anti).shape != (n,) or not np.array_equal(np.asarray(anti, dtype=bool), tr):
        return f"anti_linear flags {np.asarray(anti).astype(int).tolist()} != {tr.astype(int).tolist()}"
    f = np.asarray(omega) * m.phase_complex()
    lin = np.nonzero(~tr)[0]
    ant = np.nonzero(tr)[0]
    nd = len(lin)
    if not coreps:
        return "no co-representation returned"
    total = 0.0
    cs = []
    for a, D in enumerate(coreps):
        D = np.asarray(D)
        if D.ndim != 3 or D.shape[0] != n or D.shape[1] != D.shape[2]:
            return f"corep {a}: shape {D.shape}"
        if not np.all(np.isfinite(D)):
            return f"corep {a}: non-finite entries"
        x = unitary_residual(D)
        if not x < tol:
            return f"corep {a} (dim {D.shape[1]}): not unitary, residual {x:.3g}"
        x = product_residual(D, m.table, f, tr)
        if not x < tol:
            return f"corep {a} (dim {D.shape[1]}): multiplication rule violated, residual {x:.3g}"
        c = chars([D])[0]
        cs.append(c)
        lin_norm = float((np.abs(c[lin]) ** 2).sum() / nd)
        # sum over antilinear a of the character of a^2: Gamma(a) Gamma(a)^* = f(a,a) Gamma(a^2)
        ant_sum = sum(f[i, i] * c[m.table[i, i]] for i in ant) / nd if len(ant) else None
        if ant_sum is None:
            if abs(lin_norm - 1) > slack:
                return f"corep {a}: reducible ({lin_norm:.4g})"
        else:
            if abs(lin_norm + ant_sum - 2) > slack:
                return f"corep {a}: reducible (Wigner-Dimmock sum {lin_norm + ant_sum:.4g} != 2)"
            want = {1: 1, 4: -1, 2: 0}.get(int(round(lin_norm)))
            if indicators is not None and (len(indicators) != len(coreps) or int(indicators[a]) != want):
                return f"corep {a}: indicator {list(indicators)} but the type is {want}"
        total += D.shape[1] ** 2 / lin_norm
    cs = np.array(cs)[:, lin]
    g = np.abs(np.conj(cs) @ cs.T) / nd
    off = g - np.diag(np.diag(g))
    if off.max() > slack:
        return "two returned co-representations share a constituent"
    if abs(total * quot - nd) > slack:
        return f"incomplete: weighted sum of squared dimensions {total:.4g} * {quot} != {nd}"
    return None
