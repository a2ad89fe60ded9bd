"""Exact (integer / rational) reference models of space groups, little groups and factor systems.

Nothing here imports spgrep.  Translations and k-points are rationals, phases are integers modulo a
common denominator ``N`` (phase p stands for exp(2 pi i p / N)), so that every group identity is
decided exactly.
"""

from __future__ import annotations

from fractions import Fraction
from functools import lru_cache
from math import lcm

import numpy as np

F = Fraction


def frac_vec(v, maxden=48):
    out = []
    for x in v:
        f = F(float(x)).limit_denominator(maxden)
        if abs(float(f) - float(x)) > 1e-6:
            raise ValueError(f"not a small rational: {x}")
        out.append(f)
    return tuple(out)


def key(R):
    return tuple(int(x) for x in np.asarray(R).reshape(-1))


def mat_vec(R, v):
    return tuple(sum(int(R[i][j]) * v[j] for j in range(3)) for i in range(3))


def fmat_inv(M):
    """Exact inverse of a 3x3 Fraction matrix (list of lists)."""
    a = [[F(x) for x in row] for row in M]
    det = (
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
        - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    )
    adj = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [x for x in range(3) if x != i]
            c = [x for x in range(3) if x != j]
            minor = a[r[0]][c[0]] * a[r[1]][c[1]] - a[r[0]][c[1]] * a[r[1]][c[0]]
            adj[j][i] = minor * (-1) ** (i + j)
    return [[adj[i][j] / det for j in range(3)] for i in range(3)], det


def fmat_mul(A, B):
    return [[sum(F(A[i][k]) * F(B[k][j]) for k in range(3)) for j in range(3)] for i in range(3)]


class Ops:
    """A list of symmetry operations (R, t) with exact rational t; optional time reversal flags."""

    def __init__(self, R, t, tr=None):
        self.R = np.array(R, dtype=int)
        self.t = [tuple(F(x) for x in v) for v in t]
        self.tr = None if tr is None else np.array(tr, dtype=int)

    def __len__(self):
        return len(self.R)

    def floats(self):
        return self.R.copy(), np.array([[float(x) for x in v] for v in self.t], dtype=float)

    def subset(self, idx):
        return Ops(self.R[idx], [self.t[i] for i in idx], None if self.tr is None else self.tr[idx])


def transform(ops, P):
    """(P,0)^-1 (R,t) (P,0) exactly; P is a 3x3 Fraction matrix."""
    Pi, _ = fmat_inv(P)
    R2, t2 = [], []
    for R, t in zip(ops.R, ops.t):
        M = fmat_mul(fmat_mul(Pi, R.tolist()), P)
        if any(x.denominator != 1 for row in M for x in row):
            raise ValueError("non-integer rotation after transformation")
        R2.append([[int(x) for x in row] for row in M])
        t2.append(tuple(sum(Pi[i][j] * t[j] for j in range(3)) for i in range(3)))
    return Ops(R2, t2, ops.tr)


def mod1(v):
    return tuple(x - (x.numerator // x.denominator) for x in v)


def unique_rotations(ops, reduce=True):
    seen, R, t, tr = set(), [], [], []
    for i in range(len(ops)):
        k = key(ops.R[i]) if ops.tr is None else (key(ops.R[i]), int(ops.tr[i]))
        if k in seen:
            continue
        seen.add(k)
        R.append(ops.R[i])
        t.append(mod1(ops.t[i]) if reduce else ops.t[i])
        if ops.tr is not None:
            tr.append(ops.tr[i])
    return Ops(R, t, tr if ops.tr is not None else None)


def centring_vectors(ops):
    I = key(np.eye(3, dtype=int))
    out = set()
    for i in range(len(ops)):
        if key(ops.R[i]) == I and (ops.tr is None or ops.tr[i] == 0):
            out.add(mod1(ops.t[i]))
    return sorted(out)


def lattice_basis(vectors):
    """Basis (columns) of the lattice spanned by Z^3 and ``vectors``: Hermite-like reduction, exact."""
    D = 1
    for v in vectors:
        for x in v:
            D = lcm(D, x.denominator)
    rows = [[D if i == j else 0 for j in range(3)] for i in range(3)]
    rows += [[int(x * D) for x in v] for v in vectors]
    basis = []
    col = 0
    rows = [r for r in rows if any(r)]
    while col < 3:
        # gcd elimination in column `col`
        while True:
            nz = [r for r in rows if r[col] != 0]
            if len(nz) <= 1:
                break
            piv = min(nz, key=lambda r: abs(r[col]))
            for r in rows:
                if r is not piv and r[col] != 0:
                    q = r[col] // piv[col]
                    for j in range(3):
                        r[j] -= q * piv[j]
        piv = [r for r in rows if r[col] != 0][0]
        rows = [r for r in rows if r is not piv and any(r)]
        if piv[col] < 0:
            piv = [-x for x in piv]
        basis.append([F(x, D) for x in piv])
        col += 1
    # columns are basis vectors
    return [[basis[j][i] for j in range(3)] for i in range(3)]


def _db(h):
    import spglib

    s = spglib.get_symmetry_from_database(h)
    return s["rotations"], s["translations"]


@lru_cache(maxsize=None)
def hall_conventional(h):
    R, t = _db(h)
    return Ops(R, [frac_vec(v) for v in t])


@lru_cache(maxsize=None)
def hall_primitive(h):
    """Primitive-cell operations of Hall number h in a basis computed here (not spgrep's choice)."""
    ops = hall_conventional(h)
    P = lattice_basis(centring_vectors(ops))
    return unique_rotations(transform(ops, P))


@lru_cache(maxsize=None)
def msg_conventional(uni):
    import spglib

    s = spglib.get_magnetic_symmetry_from_database(uni)
    return Ops(
        s["rotations"], [frac_vec(v) for v in s["translations"]], np.asarray(s["time_reversals"], dtype=int)
    )


@lru_cache(maxsize=None)
def msg_primitive(uni):
    """Cell primitive with respect to *unitary* translations."""
    ops = msg_conventional(uni)
    P = lattice_basis(centring_vectors(ops))
    return unique_rotations(transform(ops, P))


# ------------------------------------------------------------------------------------------------
# k-points
# ------------------------------------------------------------------------------------------------


def kgrid(q):
    return [
        (F(a, q), F(b, q), F(c, q)) for a in range(q) for b in range(q) for c in range(q)
    ]


def dedupe(ks):
    seen, out = set(), []
    for k in ks:
        if k not in seen:
            seen.add(k)
            out.append(k)
    return out


def star_representatives(ops, ks):
    """One k per orbit of the point group modulo reciprocal lattice (first in listing order)."""
    seen, out = set(), []
    for k in ks:
        k0 = mod1(k)
        if k0 in seen:
            continue
        out.append(k)
        for R in ops.R:
            seen.add(mod1(mat_vec(R.T, k0)))
    return out


def kfloat(k):
    return np.array([float(x) for x in k])


# ------------------------------------------------------------------------------------------------
# little groups, tables, factor systems (exact)
# ------------------------------------------------------------------------------------------------


def little_indices(ops, k):
    """Operations with R^T k == k (mod 1); antiunitary ones must send k to -k."""
    out = []
    for i, R in enumerate(ops.R):
        v = mat_vec(R.T, k)
        s = 1
        if ops.tr is not None and ops.tr[i]:
            s = -1
        if all((s * a - b).denominator == 1 for a, b in zip(v, k)):
            out.append(i)
    return out


class Model:
    """Exact model of the representations of a (little) group given by coset representatives.

    ``table[i,j]=k``; ``lat[i,j]`` = integer-lattice (or rational centring) residual translation
    t_ij = R_i t_j + t_i - t_k; ``phase[i,j]`` = -k.t_ij mod 1 scaled by N.
    A representation at k must satisfy D_i D_j^(*) = z_ij exp(2 pi i phase_ij / N) D_k.
    """

    def __init__(self, ops, k):
        self.ops, self.k = ops, k
        n = len(ops)
        D = 1
        for v in ops.t:
            for x in v:
                D = lcm(D, x.denominator)
        Dk = 1
        for x in k:
            Dk = lcm(Dk, x.denominator)
        self.N = N = D * Dk
        T = np.array([[int(x * D) for x in v] for v in ops.t], dtype=np.int64).reshape(n, 3)
        kk = np.array([int(x * Dk) for x in k], dtype=np.int64)
        R = ops.R.astype(np.int64)
        prod = np.einsum("iab,jbc->ijac", R, R)
        tr = ops.tr if ops.tr is not None else np.zeros(n, dtype=int)
        groups = {}
        for i in range(n):
            groups.setdefault((key(R[i]), int(tr[i])), []).append(i)
        tab = -np.ones((n, n), dtype=int)
        RT = np.einsum("iab,jb->ija", R, T) + T[:, None, :]
        for i in range(n):
            for j in range(n):
                cands = groups.get((key(prod[i, j]), int(tr[i]) ^ int(tr[j])))
                if cands is None:
                    continue
                if len(cands) == 1:
                    tab[i, j] = cands[0]
                else:
                    for c in cands:
                        if np.all((RT[i, j] - T[c]) % D == 0):
                            tab[i, j] = c
                            break
        self.closed = bool(np.all(tab >= 0))
        self.table = tab
        if not self.closed:
            return
        lat = RT - T[tab]
        self.lat_num, self.D = lat, D
        self.integral = bool(np.all(lat % D == 0))
        self.phase = (-(lat @ kk)) % N
        self.tr = tr
        self.n = n
        I = key(np.eye(3, dtype=int))
        self.identity = [
            i for i in range(n) if key(R[i]) == I and tr[i] == 0 and np.all(T[i] % D == 0)
        ]
        self.T, self.kk = T, kk

    def phase_complex(self):
        return np.exp(2j * np.pi * self.phase / self.N)

    def little_phase(self):
        """exp(-2 pi i k.t_i): value of the translation character on the representatives."""
        return np.exp(-2j * np.pi * ((self.T @ self.kk) % self.N) / self.N)


def num_projective_irreps(table, phase, N):
    """Number of inequivalent irreps of the twisted group algebra with 2-cocycle exp(2 pi i phase/N).

    = number of conjugacy classes of ``regular`` elements (g with w(g,h) = w(h,g) for all h commuting
    with g).  Exact integer arithmetic.
    """
    n = len(table)
    comm = table == table.T
    twist = (phase - phase.T) % N
    regular = np.array([bool(np.all(twist[g][comm[g]] == 0)) for g in range(n)])
    inv = np.zeros(n, dtype=int)
    e = [i for i in range(n) if np.all(table[i] == np.arange(n))][0]
    for i in range(n):
        inv[i] = int(np.nonzero(table[i] == e)[0][0])
    seen = np.zeros(n, dtype=bool)
    count = 0
    for g in range(n):
        if seen[g]:
            continue
        cls = set(int(table[table[h, g], inv[h]]) for h in range(n))
        for c in cls:
            seen[c] = True
        if regular[g]:
            count += 1
    return count


def is_cocycle(table, phase, N):
    n = len(table)
    i = np.arange(n)
    # w(i,jk) + w(j,k) == w(ij,k) + w(i,j)
    lhs = phase[i[:, None, None], table[None, :, :]] + phase[None, :, :]
    rhs = phase[table[:, :, None], i[None, None, :]] + phase[:, :, None]
    return bool(np.all((lhs - rhs) % N == 0))
