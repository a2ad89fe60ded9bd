"""C14: change of cell: primitive bases, transformation of operations and k vectors, removal of duplicates."""
from __future__ import annotations

from fractions import Fraction as F

import numpy as np

from mc.exact import (
    Ops, centring_vectors, fmat_inv, fmat_mul, hall_conventional, key, kfloat, mat_vec, mod1, msg_conventional, transform,
)
from mc.gen import STD_PRIMITIVE, centring_symbol
from mc.structures import expand
from mc.util import call, refused

RULE = "one case = (Hall number or magnetic group, change of basis, k vector); everything is compared with exact rational arithmetic"
CHUNK = 8

_P = {
    "identity": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "cyclic": [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    "shear": [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
    "improper": [[1, -1, 0], [0, 1, 1], [0, 0, -1]],
    "skew": [[1, 1, 1], [0, 1, 1], [1, 1, 2]],
    "supercell": [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
    "skew supercell": [[3, 3, 0], [0, 3, 0], [3, 0, -3]],
    "swap": [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
}
HNF = [[[a, b, c], [0, d, e], [0, 0, m // (a * d)]] for m in (2, 3, 4) for a in range(1, m + 1) if m % a == 0 for d in range(1, m // a + 1) if m // a % d == 0
       for b in range(d) for c in range(m // (a * d)) for e in range(m // (a * d))]  # one basis of every lattice of index 2, 3 and 4
K = [(F(0), F(0), F(0)), (F(1, 2), F(0), F(0)), (F(1, 3), F(1, 3), F(1, 2)), (F(1, 5), F(-2, 7), F(3, 4)), (F(1), F(-1), F(5, 2)), (F(-37, 3), F(25, 4), F(1, 12))]


def bounds(tier):
    return "all 530 Hall numbers and all 1651 magnetic groups x 8 cells and the primitive cell (and the chain given cell -> other cell -> primitive) x 6 k vectors (3 for magnetic groups); for every Hall number all sublattices and all finer lattices of index 2, 3 and 4"


def tasks(tier):
    return [("hall", h) for h in range(1, 531)] + [("msg", u) for u in range(1, 1652)]


def fm(P):
    return [[F(x) for x in r] for r in P]


def ff(P):
    return np.array([[float(x) for x in r] for r in P])


def check(task, rec):
    from spgrep.transform import (
        get_centering, get_crystal_system, get_primitive_transformation_matrix as M, transform_symmetry_and_kpoint as T,
        unique_primitive_symmetry as Uq,
    )

    kind, num = task
    if kind == "hall":
        conv = hall_conventional(num)
        name = f"hall={num}"
        P = call(rec, name, M, num)
        if P is None:
            return
        sym = centring_symbol(conv)
        Pe = fm(STD_PRIMITIVE[sym])
        cen = centring_vectors(conv)
        Pa = np.asarray(P, dtype=float)
        # lattice generated by the columns == lattice generated by Z^3 and the centring vectors
        rec.model(1, len(cen))
        inv = np.linalg.inv(Pa)
        gens = [np.eye(3)[i] for i in range(3)] + [np.array([float(x) for x in v]) for v in cen]
        if abs(np.linalg.det(Pa) * len(cen) - 1) > 1e-9 or any(np.abs(inv @ g - np.rint(inv @ g)).max() > 1e-9 for g in gens):
            rec.violation(name, f"columns of {Pa.tolist()} do not generate the lattice with centring vectors {[tuple(map(str, v)) for v in cen]}")
            return
        if np.abs(Pa - ff(Pe)).max() > 1e-12:
            rec.violation(name, f"primitive basis {Pa.tolist()} is not the documented one for centring {sym}")
            return
        import spglib

        st = spglib.get_spacegroup_type(num)
        system = ("triclinic" if st["number"] < 3 else "monoclinic" if st["number"] < 16 else "orthorhombic" if st["number"] < 75 else
                  "tetragonal" if st["number"] < 143 else "trigonal" if st["number"] < 168 else "hexagonal" if st["number"] < 195 else "cubic")
        if get_crystal_system(num) != system:
            rec.violation(name, f"crystal system {get_crystal_system(num)}, space group {st['number']} is {system}")
        want = "R" if st["hall_symbol"].lstrip("-")[0] == "R" else sym
        if get_centering(st["hall_symbol"]) != want:
            rec.violation(name, f"centring symbol {get_centering(st['hall_symbol'])} for {st['hall_symbol']}")
        for bad in (0, 531, -1) if num == 1 else ():
            try:
                get_crystal_system(bad)
                rec.violation(f"hall={bad}", "no error for an invalid Hall number")
            except ValueError:
                pass
        primitive = [("primitive", Pe)]
    else:
        conv = msg_conventional(num)
        name = f"uni={num}"
        sym = centring_symbol(conv)
        primitive = [("primitive", fm(STD_PRIMITIVE[sym]))] if sym else []
    for cname, Pm in [(c, fm(p)) for c, p in _P.items()] + primitive:
        nm = f"{name} cell={cname}"
        exp = transform(conv, Pm)
        for k in K[: 2] + K[3:4] if kind == "msg" else K:
            R, t = conv.floats()
            out = call(rec, nm, T, ff(Pm), R, t, kfloat(k))
            if out is None:
                return
            R2, t2, k2 = out
            kk = tuple(sum(Pm[j][a] * k[j] for j in range(3)) for a in range(3))
            rec.model(len(conv), len(conv))
            te = exp.floats()[1]
            if np.shape(R2) != exp.R.shape or not np.array_equal(R2, exp.R) or np.abs(np.asarray(t2) - te).max() > 1e-9:
                rec.violation(nm, "transformed operations differ from P^-1 (R, t) P")
                return
            if np.abs(np.asarray(k2) - kfloat(kk)).max() > 1e-9:
                rec.violation(nm, f"transformed k vector {k2} is not P^T k")
                return
        # duplicates
        for oname, o in (("", exp), (" reversed", exp.subset(list(range(len(exp)))[::-1]))):
            R, t = o.floats()
            out = call(rec, nm + oname, Uq, R, t, o.tr) if o.tr is not None else call(rec, nm + oname, Uq, R, t)
            if out is None:
                return
            uR, ut, mp = np.asarray(out[0]), np.asarray(out[1]), [int(x) for x in out[2]]
            rec.model(len(o), len(o))
            trs = [0] * len(o) if o.tr is None else [int(x) for x in o.tr]
            want = {(key(r), a) for r, a in zip(o.R, trs)}
            if len(uR) != len(want) or len(ut) != len(uR) or len(mp) != len(o) or min(mp) < 0 or max(mp) != len(uR) - 1:
                rec.violation(nm + oname, f"{len(uR)} unique operations, expected {len(want)}")
                return
            per = {}
            for i, j in enumerate(mp):
                if key(uR[j]) != key(o.R[i]):
                    rec.violation(nm + oname, f"operation {i} mapped to entry {j} with another rotation")
                    return
                if per.setdefault(j, trs[i]) != trs[i]:
                    rec.violation(nm + oname, f"entry {j} stands for operations with and without time reversal")
                    return
            if len({(key(uR[j]), a) for j, a in per.items()}) != len(uR):
                rec.violation(nm + oname, "unique operations contain a duplicate")
                return
            for j in range(len(uR)):
                d = [np.abs((ut[j] - t[i]) - np.rint(ut[j] - t[i])).max() for i in range(len(o)) if mp[i] == j]
                if min(d) > 1e-9 or ut[j].min() < -1e-9 or ut[j].max() > 1 + 1e-9:
                    rec.violation(nm + oname, f"translation {ut[j]} of entry {j} is not one of its operations reduced to [0, 1)")
                    return
            rec.count("nontrivial", int(len(uR) < len(o)))
        rec.sample(f"{nm}: {len(conv)} operations, centring {sym}")
    # P then Q equals PQ
    if kind == "hall":
        A, B = fm(_P["skew"]), fm(_P["supercell"])
        R, t = conv.floats()
        k = kfloat(K[3])
        one = call(rec, name + " chain", T, ff(A), R, t, k)
        two = call(rec, name + " chain", T, ff(B), *one) if one is not None else None
        both = call(rec, name + " chain", T, ff(fmat_mul(A, B)), R, t, k)
        if two is not None and both is not None:
            if not np.array_equal(two[0], both[0]) or np.abs(two[1] - both[1]).max() > 1e-9 or np.abs(two[2] - both[2]).max() > 1e-9:
                rec.violation(name + " chain", "two successive changes of basis differ from their product")
        indices(rec, name, conv, T)


def indices(rec, name, conv, T):
    """Every lattice of small index, coarser and finer: exact if the operations are integer matrices in it, refused otherwise."""
    R, t = conv.floats()
    for H in HNF:
        H = np.array(H)
        (a, b, c), (_, d, e), (_, _, f) = H
        det = a * d * f
        adj = np.array([[d * f, -b * f, b * e - c * d], [0, a * f, -a * e], [0, 0, a * d]])  # H adj = det
        for what, P, left, right, inv in (("coarser", H.astype(float), adj, H, adj / det), ("finer", adj / det, H, adj, H.astype(float))):
            nm = f"{name} {what} lattice {H.tolist()}"
            N = left @ conv.R @ right
            rec.model(1, len(R))
            if (N % det).any():
                refused(rec, nm, lambda: T(P, R, t, kfloat(K[3])))
                continue
            out = call(rec, nm, T, P, R, t, kfloat(K[3]))
            if out is None:
                continue
            if not np.array_equal(out[0], N // det) or np.abs(out[1] - t @ inv.T).max() > 1e-9 or np.abs(out[2] - P.T @ kfloat(K[3])).max() > 1e-9:
                rec.violation(nm, "transformed operations or k vector differ from the exact ones")
    rec.sample(f"{name}: {len(HNF)} sublattices and as many finer lattices")
