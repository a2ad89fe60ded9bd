"""C10: Frobenius-Schur indicators."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, dedupe, kfloat, kgrid, little_indices, star_representatives
from mc.gen import LINES, deviate, hall_std_primitive, lattice_for
from mc.reps import chars
from mc.util import call, classes, fmt, group_table, orderings

RULE = (
    "one case = one enumeration (space group and k, or point group, with or without spin); every indicator is compared with the "
    "exact character sum over squares, and the dimension-weighted sum with the exact number of square roots of the identity"
)
CHUNK = 2
DEVS = ("none", "lattice-shift", "reverse", "origin", "basis1", "kG", "-k", "general-origin", "skew", "basis3+lattice-shift")


def kset(tier):
    ks = dedupe(kgrid(2) + [(a, b, c) for a, b, c in kgrid(4) if 2 * a == 1 or a == 0][::3] + kgrid(3)[1::3] + LINES[::3])
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return ks


def bounds(tier):
    return (f"530 Hall numbers x star representatives of {len(kset(tier))} k vectors x presentations rotated through {len(DEVS)} (the default one too for 2k=0); "
            "122 rotation sets x 4 orders x both methods, linear and with the spin factor system")


def tasks(tier):
    return [("sg", h, None, tier) for h in range(530, 0, -1)] + [("pg", h, R.tolist(), tier) for h, R in classes()]


def judge(rec, name, irreps, ind, table, f, zero):
    """f: exact complex factor of the matrices as returned; zero: 2k is no reciprocal lattice vector."""
    n = len(table)
    rec.model(n, n, len(irreps))
    if len(ind) != len(irreps):
        rec.violation(name, f"{len(ind)} indicators for {len(irreps)} representations")
        return
    c = chars(irreps)
    sq = np.array([table[i, i] for i in range(n)])
    fd = np.array([f[i, i] for i in range(n)])
    for a in range(len(irreps)):
        want = 0.0 if zero else (fd * c[a][sq]).sum() / n
        if abs(want - np.rint(np.real(want))) > 1e-4:
            rec.violation(name, f"irrep {a}: exact indicator {want} is not an integer; the representation is wrong")
            return
        if not isinstance(ind[a], (int, np.integer)) or int(ind[a]) != int(np.rint(np.real(want))):
            rec.violation(name, f"irrep {a}: indicator {ind[a]}, exact sum over squares {np.real(want):.3f}")
            return
        conj_eq = abs((c[a] * c[a]).sum() / n - 1) < 1e-4
        if not zero and (int(ind[a]) != 0) != conj_eq:
            rec.violation(name, f"irrep {a}: indicator {ind[a]} but equivalent to its conjugate: {conj_eq}")
            return
    if not zero:
        e = next(i for i in range(n) if np.array_equal(table[i], np.arange(n)))
        roots = np.real(sum(fd[i] for i in range(n) if sq[i] == e) * c[0][e] / irreps[0].shape[1])
        s = sum(int(v) * x.shape[1] for v, x in zip(ind, irreps))
        if abs(s - roots) > 1e-4:
            rec.violation(name, f"dimension-weighted indicator sum {s}, exact sum over square roots of the identity {roots:.3f}")
            return
    if any(int(v) != 1 for v in ind):
        rec.count("nontrivial")
    rec.sample(f"{name}: indicators {[int(v) for v in ind]}")


def check(task, rec):
    from spgrep.irreps import enumerate_small_representations as S, enumerate_unitary_irreps as E
    from spgrep.representation import frobenius_schur_indicator as FS
    from spgrep.spinor import get_spinor_factor_system as Z

    kind, h, R, tier = task
    if kind == "pg":
        R = np.array(R)
        os = orderings(len(R))
        for oname, perm in os[:: max(1, len(os) // 4)]:
            Q = R[perm]
            t = group_table(Q)
            n = len(Q)
            omega, _ = Z(lattice_for(Q, "generic"), Q)
            for fname, f in (("linear", None), ("spin", omega)):
                for method in ("Neto", "random"):
                    name = f"pointgroup of hall={h} order={oname} factor={fname} method={method}"
                    out = call(rec, name, E, Q, factor_system=f, method=method)
                    if out is None:
                        continue
                    judge(rec, name, out[0], out[1], t, np.ones((n, n)) if f is None else f, False)
                    for a, D in enumerate(out[0]):
                        v = FS(D)
                        if v != out[1][a]:
                            rec.violation(name, f"irrep {a}: indicator of the matrices {v}, listed {out[1][a]}")
                            break
        return
    std = hall_std_primitive(h)
    for i, k in enumerate(star_representatives(std, kset(tier))):
        some = tier == "thorough" or all((2 * x).denominator == 1 for x in k)
        for d in dict.fromkeys((DEVS[(i + h) % len(DEVS)], "none")) if some else (DEVS[(i + h) % len(DEVS)],):
            ops, kk = deviate(d, std, k)
            li = little_indices(ops, kk)
            sub = ops.subset(li)
            m = Model(sub, kk)
            r, t = sub.floats()
            for method in ("Neto", "random"):
                name = f"hall={h} k={fmt(k)} dev={d} method={method}"
                out = call(rec, name, S, r, t, kfloat(kk), method=method)
                if out is None:
                    continue
                zero = any((2 * x).denominator != 1 for x in kk)
                judge(rec, name, out[0], out[1], m.table, m.phase_complex(), zero)
