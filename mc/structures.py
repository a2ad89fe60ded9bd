"""Crystal structures realising a given group exactly, and memoised symmetry search."""
from __future__ import annotations

import copy
from fractions import Fraction as F
from functools import lru_cache

import numpy as np

from mc.exact import (
    Ops, fmat_inv, hall_conventional, key, mat_vec, mod1, msg_conventional, transform,
)
from mc.gen import STRAIN, centring_symbol, lattice_for, STD_PRIMITIVE, ORIENTATIONS

_POINTS = [(0.0731, 0.1877, 0.3119), (0.4213, 0.0957, 0.2371)]


def memoise_symmetry_search():
    """spglib's search is a pure function of the cell: remember its answers (returns copies)."""
    import spglib

    for name in ("get_symmetry_dataset", "get_magnetic_symmetry_dataset"):
        f = getattr(spglib, name)
        if getattr(f, "_memo", None) is not None:
            continue
        memo = {}

        def g(cell, *args, _f=f, _memo=memo, **kwargs):
            symprec = kwargs.get("symprec", args[0] if args else None)
            k = (tuple(np.asarray(x).tobytes() for x in cell), symprec)
            if k not in _memo:
                if len(_memo) > 8:
                    _memo.clear()
                _memo[k] = _f(cell, *args, **kwargs)
            return copy.deepcopy(_memo[k])

        g._memo = memo
        setattr(spglib, name, g)


def expand(ops, P):
    """Operations of the group in the cell whose basis vectors are the columns of P (rational or
    integer matrix, supercells included): coset representatives modulo the new cell's translations.
    Operations that do not map the new cell lattice on itself are left out."""
    Pi, det = fmat_inv(P)
    # lattice translations of the old cell inside the new cell
    trans = {mod1(tuple(Pi[i][j] for i in range(3))) for j in range(3)}
    group = {(F(0), F(0), F(0))}
    frontier = list(group)
    while frontier:
        new = []
        for v in frontier:
            for w in trans:
                s = mod1(tuple(a + b for a, b in zip(v, w)))
                if s not in group:
                    group.add(s)
                    new.append(s)
        frontier = new
    seen, R2, t2, tr2 = set(), [], [], []
    for i in range(len(ops)):
        try:
            o = transform(Ops([ops.R[i]], [ops.t[i]]), P)
        except ValueError:
            continue
        for v in sorted(group):
            t = mod1(tuple(a + b for a, b in zip(o.t[0], v)))
            s = (key(o.R[0]), t, 0 if ops.tr is None else int(ops.tr[i]))
            if s in seen:
                continue
            seen.add(s)
            R2.append(o.R[0])
            t2.append(t)
            if ops.tr is not None:
                tr2.append(ops.tr[i])
    return Ops(R2, t2, tr2 if ops.tr is not None else None)


def orbit_structure(ops, orientation="axes"):
    """(lattice, positions, numbers[, moments]) of two generic orbits of the given operations."""
    lattice = lattice_for(np.unique(ops.R, axis=0), orientation, 6.0)
    vol = abs(np.linalg.det(lattice))
    pos, num, mom = [], [], []
    R, t = ops.floats()
    inv = np.linalg.inv(lattice)
    for s, p in enumerate(_POINTS):
        for i in range(len(ops)):
            x = R[i] @ np.array(p) + t[i]
            pos.append(x - np.floor(x))
            num.append(s + 1)
            if ops.tr is not None:
                # scalar moment: unaffected by rotations, reversed by time reversal
                mom.append((1.0 + s) * (-1.0 if ops.tr[i] else 1.0))
    cell = (lattice, np.array(pos), np.array(num))
    return cell + (np.array(mom),) if ops.tr is not None else cell


def transform_structure(cell, P, shift=(F(0), F(0), F(0))):
    """The same crystal described in the cell with basis columns P (supercells included)."""
    Pf = np.array([[float(x) for x in r] for r in P])
    Pi = np.linalg.inv(Pf)
    lattice, pos, num = cell[:3]
    mom = cell[3] if len(cell) > 3 else None
    m = int(np.ceil(np.abs(Pf).sum(axis=1).max()))
    out_p, out_n, out_m, seen = [], [], [], {}
    grid = [np.array([a, b, c]) for a in range(-m, m + 1) for b in range(-m, m + 1) for c in range(-m, m + 1)]
    s = np.array([float(x) for x in shift])
    for i, p in enumerate(pos):
        for g in grid:
            x = Pi @ (p + g) - s
            x = x - np.floor(x + 1e-9)
            kk = (int(num[i]),) + tuple(int(round(v * 100000)) % 100000 for v in x)
            if kk in seen:
                continue
            seen[kk] = True
            out_p.append(x)
            out_n.append(num[i])
            if mom is not None:
                out_m.append(mom[i])
    c = (Pf.T @ lattice, np.array(out_p), np.array(out_n))
    return c + (np.array(out_m),) if mom is not None else c


def lattice_little(ops, k, extra):
    """Indices of operations with (+-)R^T k - k in the reciprocal lattice of the crystal, whose
    translation lattice is generated by Z^3 and ``extra`` (rational vectors)."""
    out = []
    for i, R in enumerate(ops.R):
        v = mat_vec(R.T, k)
        s = -1 if (ops.tr is not None and ops.tr[i]) else 1
        d = tuple(s * a - b for a, b in zip(v, k))
        if all(x.denominator == 1 for x in d) and all(
            sum(a * b for a, b in zip(d, e)).denominator == 1 for e in extra
        ):
            out.append(i)
    return out


def magnetic_structure(ops, orientation="axes"):
    """Collinear (scalar moment) structure with exactly the given magnetic group; grey groups (every
    operation occurs with and without time reversal) carry zero moments."""
    keys = {(key(r), mod1(t)) for r, t, a in zip(ops.R, ops.t, ops.tr) if a == 0}
    grey = any(a and (key(r), mod1(t)) in keys for r, t, a in zip(ops.R, ops.t, ops.tr))
    if not grey:
        return orbit_structure(ops, orientation)
    lin = [i for i in range(len(ops)) if ops.tr[i] == 0]
    cell = orbit_structure(Ops(ops.R[lin], [ops.t[i] for i in lin]), orientation)
    return cell + (np.zeros(len(cell[1])),)


# (name, distortion, keyword arguments, whether the whole group is within the tolerance)
DISTORTIONS = (
    ("strained, symprec 1e-2", "strain", {"symprec": 1e-2}, True),
    ("displaced, symprec 1e-2", "displace", {"symprec": 1e-2}, True),
    ("strained, symprec 1e-6", "strain", {"symprec": 1e-6}, False),
    ("strained, symprec default", "strain", {}, False),
)


def distort(cell, kind):
    """The crystal with a lattice strain or atomic displacements of about 1e-4."""
    lattice, pos, num = cell[:3]
    if kind == "strain":
        lattice = lattice @ (np.eye(3) + STRAIN)
    else:
        n = np.arange(3 * len(pos)).reshape(-1, 3)
        pos = pos + 5e-5 * np.sin(1.0 + 1.7 * n + 0.3 * n**2)
    return (lattice, pos, num) + tuple(cell[3:])


def near_ops(exp, R, t, tr=None, tol=0.02):
    """The listed operations with the exact translations of ``exp``; None if some operation is not in
    ``exp`` or occurs twice."""
    R, t = np.asarray(R), np.asarray(t, dtype=float)
    exp_t = np.array([[float(x) for x in v] for v in exp.t])
    out, used = [], set()
    for i in range(len(R)):
        hit = None
        for j in range(len(exp)):
            if j in used or key(exp.R[j]) != key(R[i]) or (tr is not None and int(exp.tr[j]) != int(tr[i])):
                continue
            d = t[i] - exp_t[j]
            if np.abs(d - np.rint(d)).max() < tol:
                hit = j
                out.append(tuple(a + int(b) for a, b in zip(exp.t[j], np.rint(d))))
                break
        if hit is None:
            return None
        used.add(hit)
    return Ops(R, out, None if tr is None else np.asarray(tr))


def same_operations(a, b):
    f = lambda o: {(key(r), mod1(v), 0 if o.tr is None else int(o.tr[i])) for i, (r, v) in enumerate(zip(o.R, o.t))}
    return len(a) == len(b) and f(a) == f(b)


def found_operations(exp, cell, symprec, whole):
    """What spglib itself finds in the crystal, as exact operations; None if the case is no use."""
    import spglib

    f = spglib.get_symmetry_dataset if len(cell) == 3 else spglib.get_magnetic_symmetry_dataset
    d = f(cell, symprec=symprec)
    if d is None:
        return None
    ops = near_ops(exp, d["rotations"], d["translations"], d["time_reversals"] if len(cell) > 3 else None)
    if ops is None or (whole and len(ops) != len(exp)):
        return None
    return ops
