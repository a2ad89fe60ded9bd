"""Inputs: lattices, standard primitive bases, deviations of the way a group is presented, structures."""

from __future__ import annotations

from fractions import Fraction as F
from functools import lru_cache

import numpy as np

from mc.exact import (
    Ops, centring_vectors, fmat_inv, hall_conventional, key, lattice_basis, mat_vec, mod1,
    msg_conventional, transform, unique_rotations,
)

H = F(1, 2)
T3 = F(1, 3)
# Columns: primitive basis vectors in the conventional cell (ITA 2016, Table 1.5.1.1 style choices)
STD_PRIMITIVE = {
    "P": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "A": [[1, 0, 0], [0, H, -H], [0, H, H]],
    "B": [[H, 0, -H], [0, 1, 0], [H, 0, H]],
    "C": [[H, H, 0], [-H, H, 0], [0, 0, 1]],
    "I": [[-H, H, H], [H, -H, H], [H, H, -H]],
    "F": [[0, H, H], [H, 0, H], [H, H, 0]],
    "R": [[2 * T3, -T3, -T3], [T3, T3, -2 * T3], [T3, T3, T3]],
}
_CENTRING = {
    frozenset([(0, 0, 0)]): "P",
    frozenset([(0, 0, 0), (0, H, H)]): "A",
    frozenset([(0, 0, 0), (H, 0, H)]): "B",
    frozenset([(0, 0, 0), (H, H, 0)]): "C",
    frozenset([(0, 0, 0), (H, H, H)]): "I",
    frozenset([(0, 0, 0), (0, H, H), (H, 0, H), (H, H, 0)]): "F",
    frozenset([(0, 0, 0), (2 * T3, T3, T3), (T3, 2 * T3, 2 * T3)]): "R",
}


def centring_symbol(ops):
    return _CENTRING.get(frozenset(centring_vectors(ops)))


@lru_cache(maxsize=None)
def hall_std_primitive(h):
    """Operations of Hall number h in the customary primitive basis of its centring type."""
    ops = hall_conventional(h)
    return unique_rotations(transform(ops, STD_PRIMITIVE[centring_symbol(ops)]))


@lru_cache(maxsize=None)
def msg_std_primitive(uni):
    ops = msg_conventional(uni)
    s = centring_symbol(ops)
    P = STD_PRIMITIVE[s] if s else lattice_basis(centring_vectors(ops))
    return unique_rotations(transform(ops, P))


@lru_cache(maxsize=None)
def arithmetic_classes():
    """{frozenset of rotation matrices: (name, rotations)} over all primitive Hall settings."""
    out = {}
    for h in range(1, 531):
        ops = hall_std_primitive(h)
        s = frozenset(key(r) for r in ops.R)
        if s not in out:
            out[s] = (h, ops.R)
    return out


@lru_cache(maxsize=None)
def magnetic_pointgroups():
    """Distinct (rotation, time reversal) sets over all 1651 magnetic space groups (primitive)."""
    out = {}
    for u in range(1, 1652):
        ops = msg_std_primitive(u)
        s = frozenset((key(r), int(a)) for r, a in zip(ops.R, ops.tr))
        if s not in out:
            out[s] = (u, ops.R, ops.tr)
    return out


# ------------------------------------------------------------------------------------------------
# lattices
# ------------------------------------------------------------------------------------------------

_M0 = np.array([[1.0, 0.11, -0.07], [0.11, 1.23, 0.05], [-0.07, 0.05, 1.51]])


def _rot(axis, angle):
    a = np.array(axis, dtype=float)
    a /= np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * (K @ K)


ORIENTATIONS = {
    "axes": np.eye(3),
    "generic": _rot((0.3, -0.7, 0.64), 1.234),
    "left": np.diag([1.0, 1.0, -1.0]),
    "permuted": np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]),
    "flipped": np.diag([-1.0, -1.0, 1.0]),
}


# a lattice as it comes out of a relaxation: symmetric only within a tolerance
STRAIN = 1e-4 * np.array([[1.0, 0.3, 0.2], [0.3, -0.7, 0.5], [0.2, 0.5, 0.4]])


def lattice_for(R, orientation="axes", scale=3.0):
    """Row-wise lattice with a metric invariant under all rotations; generic apart from that."""
    R = np.asarray(R)
    G = sum(r.T @ _M0 @ r for r in R) / len(R)
    L = np.linalg.cholesky(G)  # rows are basis vectors: L L^T = G
    if orientation == "strained":
        return scale * L @ ORIENTATIONS["generic"].T @ (np.eye(3) + STRAIN)
    return scale * L @ ORIENTATIONS[orientation].T


def conventional_lattice(h):
    return lattice_for(np.unique(hall_conventional(h).R, axis=0), "axes", 6.0)


def cart(lattice, R):
    A = np.asarray(lattice, dtype=float).T
    return A @ R @ np.linalg.inv(A)


# ------------------------------------------------------------------------------------------------
# deviations: another presentation of the same group (each is one departure from the default input)
# ------------------------------------------------------------------------------------------------

_U = [
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    [[1, 0, 0], [1, 1, 0], [0, 0, 1]],
    [[1, -1, 0], [0, 1, 1], [0, 0, -1]],
    [[1, 1, 1], [0, 1, 1], [1, 1, 2]],
    [[1, 13, -91], [0, 1, -7], [0, 0, 1]],  # two shears: long, nearly parallel axes
]


def _fr(m):
    return [[F(x) for x in row] for row in m]


def dev_reverse(ops, k):
    idx = list(range(len(ops)))[::-1]
    return ops.subset(idx), k


def dev_rotate(ops, k):
    n = len(ops)
    s = max(1, n // 3)
    return ops.subset([(i + s) % n for i in range(n)]), k


def dev_interleave(ops, k):
    n = len(ops)
    idx = sorted(range(n), key=lambda i: ((i * 7 + 3) % n, i)) if n > 1 else [0]
    return ops.subset(idx), k


def dev_lattice_shift(ops, k):
    """Representatives differing by lattice translations (the identity keeps translation zero)."""
    I = key(np.eye(3, dtype=int))
    t = []
    for i, (R, v) in enumerate(zip(ops.R, ops.t)):
        s = (0, 0, 0) if key(R) == I and (ops.tr is None or ops.tr[i] == 0) else (
            (i % 3) - 1, -((i + 1) % 3), 2 * ((i // 2) % 2) - 1)
        t.append(tuple(a + b for a, b in zip(v, s)))
    return Ops(ops.R, t, ops.tr), k


def origin_shift(ops, p):
    """(E,-p)(R,t)(E,p)"""
    t = [tuple(a + b - c for a, b, c in zip(v, mat_vec(R, p), p)) for R, v in zip(ops.R, ops.t)]
    return Ops(ops.R, t, ops.tr)


def dev_origin(ops, k):
    return origin_shift(ops, (F(1, 8), F(-1, 4), F(1, 3))), k


def dev_general_origin(ops, k):
    return origin_shift(ops, (F(1, 5), F(-2, 7), F(3, 11))), k


def dev_kshift(ops, k):
    return ops, (k[0] + 1, k[1] - 2, k[2] + 1)


def dev_kneg(ops, k):
    return ops, tuple(-x for x in k)


def _basis(i):
    def f(ops, k):
        P = _fr(_U[i])
        kk = tuple(sum(P[j][a] * k[j] for j in range(3)) for a in range(3))
        return transform(ops, P), kk

    return f


DEVIATIONS = {
    "none": lambda o, k: (o, k),
    "reverse": dev_reverse,
    "rotate": dev_rotate,
    "interleave": dev_interleave,
    "lattice-shift": dev_lattice_shift,
    "origin": dev_origin,
    "general-origin": dev_general_origin,
    "kG": dev_kshift,
    "-k": dev_kneg,
    "basis0": _basis(0),
    "basis1": _basis(1),
    "basis2": _basis(2),
    "basis3": _basis(3),
    "skew": _basis(4),
}


def deviate(names, ops, k):
    for n in names.replace("k+G", "kG").split("+") if names else []:
        ops, k = DEVIATIONS[n](ops, k)
    return ops, k


# ------------------------------------------------------------------------------------------------
# k-points
# ------------------------------------------------------------------------------------------------

# symmetry points and lines not on the small regular grids
LINES = [
    (F(0), F(0), F(1, 5)), (F(0), F(1, 5), F(0)), (F(1, 5), F(0), F(0)),
    (F(1, 2), F(1, 2), F(1, 5)), (F(1, 2), F(1, 5), F(1, 2)), (F(1, 5), F(1, 2), F(1, 2)),
    (F(1, 2), F(0), F(1, 5)), (F(0), F(1, 5), F(1, 2)), (F(1, 5), F(1, 2), F(0)),
    (F(0), F(1, 2), F(1, 5)), (F(1, 2), F(1, 5), F(0)), (F(1, 5), F(0), F(1, 2)),
    (F(1, 5), F(1, 5), F(0)), (F(1, 5), F(-1, 5), F(0)), (F(1, 5), F(1, 5), F(1, 2)),
    (F(1, 5), F(-1, 5), F(1, 2)), (F(1, 5), F(0), F(1, 5)), (F(0), F(1, 5), F(1, 5)),
    (F(1, 5), F(1, 2), F(1, 5)), (F(1, 2), F(1, 5), F(1, 5)), (F(1, 2), F(1, 5), F(-1, 5)),
    (F(1, 5), F(1, 5), F(1, 5)), (F(-1, 5), F(1, 5), F(1, 5)), (F(1, 5), F(1, 5), F(-1, 5)),
    (F(1, 3), F(1, 3), F(1, 5)), (F(2, 3), F(-1, 3), F(1, 5)), (F(1, 5), F(2, 5), F(0)),
    (F(1, 5), F(2, 5), F(1, 2)), (F(1, 5), F(1, 5), F(2, 5)), (F(1, 5), F(2, 5), F(1, 7)),
    (F(1, 5), F(3, 10), F(1, 2)), (F(1, 5), F(3, 10), F(-1, 5)), (F(7, 10), F(3, 10), F(1, 5)),
]
