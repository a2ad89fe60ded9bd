"""C17: results do not depend on the method or on how the same group and k vector are presented."""
from __future__ import annotations

import numpy as np

from mc.exact import Ops, dedupe, kfloat, kgrid, key, mat_vec, mod1, star_representatives
from mc.gen import DEVIATIONS, LINES, hall_std_primitive, lattice_for, msg_std_primitive
from mc.util import call, fmt

RULE = (
    "one case = a pair of enumerations of the same group and k vector (k star) that must agree: irreps matched one to one by "
    "their characters on corresponding operations, with the same indicators"
)
CHUNK = 2
MODES = ("linear", "real", "spin")
REL = ("method", "reverse", "interleave", "lattice-shift", "origin", "kG", "-k", "basis0", "basis1", "basis2", "basis3", "skew", "arm")


def kset(tier):
    ks = dedupe(kgrid(2) + LINES[::4] + [k for k in kgrid(3) if k[2] == 0][1:4])
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return ks


def bounds(tier):
    every = "every relation" if tier == "thorough" else "a rotating sixth of the relations"
    return (f"530 Hall numbers x star representatives of {len(kset(tier))} k vectors x {every} of {len(REL)} (method, order, representatives, origin, k+G, -k, "
            f"4 bases, other arm of the star) x complex, real (2k=0) and spin irreps; 1651 magnetic groups x {5 if tier == 'quick' else 24} k vectors x relations for co-representations")


def tasks(tier):
    return [("sg", h, tier) for h in range(530, 0, -1)] + [("msg", u, tier) for u in range(1651, 0, -1)]


def enumerate_(rec, name, mode, ops, k, L, method):
    """(operation index list, list of irreps, indicators or None)"""
    from spgrep import (
        get_spacegroup_irreps_from_primitive_symmetry as G, get_spacegroup_spinor_irreps_from_primitive_symmetry as GS,
    )
    from spgrep.irreps import enumerate_small_representations as S

    R, t = ops.floats()
    if mode == "corep":
        out = call(rec, name, GS, L, R, t, ops.tr, kfloat(k), method=method)
        return out and ([int(i) for i in out[5]], out[0], [int(v) for v in out[1]])
    if mode == "spin":
        out = call(rec, name, GS, L, R, t, kpoint=kfloat(k), method=method)
        return out and ([int(i) for i in out[3]], out[0], None)
    out = call(rec, name, G, R, t, kfloat(k), real=mode == "real", method=method)
    if out is None:
        return None
    mp = [int(i) for i in out[1]]
    two = call(rec, name, S, R[mp], t[mp], kfloat(k), real=mode == "real", method=method)
    return two and (mp, out[0], indicators(out[0], two))


def indicators(irreps, two):
    """Indicators in the order of ``irreps``: the two enumerations list equivalent irreps."""
    ca, cb = _chars(irreps), _chars(two[0])
    out = []
    for a in ca:
        o = [abs(np.vdot(a, b)) for b in cb]
        out.append(int(two[1][int(np.argmax(o))]))
    return out


def _chars(irreps):
    return np.array([np.einsum("nii->n", x) for x in irreps])


def relate(A, B, pos, phase, conj, lin=None):
    """Message unless B at positions pos[i] equals A at i times phase[i], up to order and equivalence."""
    mpA, irA, indA = A
    mpB, irB, indB = B
    if {pos[i] for i in mpA} != set(mpB):
        return f"little groups {sorted(mpB)} and image of the other {sorted(pos[i] for i in mpA)} differ"
    if len(irA) != len(irB):
        return f"{len(irB)} against {len(irA)} representations"
    if sorted(x.shape[1] for x in irA) != sorted(x.shape[1] for x in irB):
        return "dimensions differ"
    where = {j: i for i, j in enumerate(mpB)}
    sel = [i for i, j in enumerate(mpA) if lin is None or lin[j]]
    ca = _chars(irA)[:, sel] * np.array([phase[mpA[i]] for i in sel])
    if conj:
        ca = np.conj(ca)
    cb = _chars(irB)[:, [where[pos[mpA[i]]] for i in sel]]
    g = np.abs(np.conj(ca) @ cb.T) / len(sel)
    nz = g > 0.5
    if not (np.all(nz.sum(0) == 1) and np.all(nz.sum(1) == 1)):
        return "no one-to-one match of characters"
    j = np.argmax(nz, axis=1)
    if np.abs(ca - cb[j]).max() > 1e-5:
        return f"characters differ by {np.abs(ca - cb[j]).max():.3g}"
    if indA and indB and [indB[x] for x in j] != indA:
        return f"indicators {indA} against {[indB[x] for x in j]}"
    return None


def presentation(rel, ops, k):
    """(operations, k, position of operation i, phase factor, complex conjugate) or None"""
    n = len(ops)
    pos = {i: i for i in range(n)}
    phase = np.ones(n, complex)
    if rel in ("method", "-k"):
        return ops, (tuple(-x for x in k) if rel == "-k" else k), pos, phase, rel == "-k"
    if rel == "arm":
        ks = [mod1(mat_vec(r.T, k)) for r in ops.R]
        g = next((i for i in range(n) if ks[i] != mod1(k) and (ops.tr is None or not ops.tr[i])), None)
        if g is None:
            return None
        k2 = mat_vec(ops.R[g].T, k)  # representation at k2: h -> D(g h g^-1)
        from mc.exact import fmat_inv
        idx = {(key(r), 0 if ops.tr is None else int(ops.tr[i])): i for i, r in enumerate(ops.R)}
        ri = np.array([[int(x) for x in row] for row in fmat_inv(ops.R[g].tolist())[0]])
        for h in range(n):
            # g^-1 h g
            r = ri @ ops.R[h] @ ops.R[g]
            u = tuple(a + b - c for a, b, c in zip(mat_vec(ops.R[h], ops.t[g]), ops.t[h], ops.t[g]))
            u = mat_vec(ri, u)
            j = idx[(key(r), 0 if ops.tr is None else int(ops.tr[h]))]
            pos[h] = j
            # D'(r,u) = D(h) and (r,u) = (E, u - t_j)(r, t_j): D'(r,t_j) = D(h) exp(+i k2.(u - t_j))
            phase[h] = np.exp(2j * np.pi * float(sum(a * (b - c) for a, b, c in zip(k2, u, ops.t[j]))))
        return ops, k2, pos, phase, False
    o, k2 = DEVIATIONS[rel](ops, k)
    if rel in ("reverse", "interleave"):
        idx = {(key(r), 0 if o.tr is None else int(o.tr[i])): i for i, r in enumerate(o.R)}
        pos = {i: idx[(key(r), 0 if ops.tr is None else int(ops.tr[i]))] for i, r in enumerate(ops.R)}
    elif rel == "lattice-shift":
        phase = np.array([np.exp(-2j * np.pi * float(sum(a * (b - c) for a, b, c in zip(k, o.t[i], ops.t[i])))) for i in range(n)])
    return o, k2, pos, phase, False


def check(task, rec):
    kind, num, tier = task
    ops = hall_std_primitive(num) if kind == "sg" else msg_std_primitive(num)
    modes = MODES if kind == "sg" else ("corep",)
    if kind == "sg":
        ks = star_representatives(ops, kset(tier))
    elif tier == "thorough":
        ks = star_representatives(ops, dedupe(kgrid(2) + LINES[num % 2 :: 2]))
    else:
        ks = star_representatives(ops, dedupe([kgrid(2)[num % 8], kgrid(2)[7 - num % 7], kgrid(3)[1 + num % 26]] + LINES[num % 32 :: 16]))
    L = lattice_for(ops.R, ("axes", "generic")[num % 2])
    lin = None if ops.tr is None else np.asarray(ops.tr) == 0
    for i, k in enumerate(ks):
        for q, mode in enumerate(modes):
            if mode == "real" and any((2 * x).denominator != 1 for x in k):
                continue
            name = f"{kind}={num} k={fmt(k)} mode={mode}"
            base = None
            for s, rel in enumerate(REL):
                if tier == "quick" and (i + q + num + s) % 6:
                    continue
                p = presentation(rel, ops, k)
                if p is None or (rel == "arm" and mode in ("spin", "corep")):
                    continue
                o, k2, pos, phase, conj = p
                if mode == "real":
                    phase = phase.real
                if base is None:
                    base = enumerate_(rec, f"{name} method=Neto", mode, ops, k, L, "Neto")
                    if base is None:
                        break
                L2 = L
                if rel.startswith("basis") or rel == "skew":
                    # columns of P are the new basis vectors
                    from mc.gen import _U
                    L2 = np.array(_U[4 if rel == 'skew' else int(rel[5])], dtype=float).T @ L
                method = "random" if rel == "method" or (i + s) % 3 == 0 else "Neto"
                other = enumerate_(rec, f"{name} relation={rel} method={method}", mode, o, k2, L2, method)
                if other is None:
                    continue
                rec.model(len(base[0]), len(base[0]), len(base[1]))
                msg = relate(base, other, pos, phase, conj, lin)
                if msg:
                    rec.violation(f"{name} relation={rel} method={method}", msg)
                    continue
                if len(base[1]) > 1:
                    rec.count("nontrivial")
                rec.sample(f"{name} relation={rel}: {len(base[1])} representations matched")
