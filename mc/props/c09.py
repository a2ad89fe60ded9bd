"""C09: physically irreducible representations (irreps over the real numbers)."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, dedupe, kfloat, kgrid, little_indices, num_projective_irreps, star_representatives
from mc.gen import LINES, deviate, hall_std_primitive
from mc.reps import chars, product_residual, unitary_residual
from mc.util import call, classes, conjugates, fmt, group_table, orderings

RULE = (
    "one case = one enumeration over the real numbers (space group and k, or point group); compared with the complex "
    "enumeration of the same input, whose completeness is established separately (C01, C03)"
)
CHUNK = 2
DEVS = ("lattice-shift", "reverse", "origin", "general-origin", "skew", "basis1", "kG", "-k", "basis3+lattice-shift")


def trim():
    return kgrid(2)


def generic(tier):
    return dedupe([k for k in kgrid(3) if any(k)] + [k for k in kgrid(4) if any((2 * x).denominator != 1 for x in k)][::7] + LINES[::4])


def bounds(tier):
    return (f"530 Hall numbers x star representatives of the 8 k vectors with 2k=0 (default and {'all' if tier == 'thorough' else 'one'} of {len(DEVS)} presentations) and of "
            f"{len(generic(tier))} others, both methods; 122 rotation sets x orders, conjugates with entries up to 1; conversion of every irrep called by itself in generic and adversarial unitary bases")


def tasks(tier):
    return [("sg", h, None, tier) for h in range(530, 0, -1)] + [(k, h, R.tolist(), tier) for k in ("pg", "direct") for h, R in classes()]


RATIOS = (2**0.5, 1.0, 3**0.5, 0.5, 2.0)
PHASES = (0.5, -2.0, 1.25)


def bases(d, tier):
    """Unitary changes of basis: the symmetric unitary matrix relating an irrep to its conjugate gets eigenvalues
    exp(i a) for which one of its real combinations cos(a) + t sin(a) coincides for different eigenvalues."""
    q = np.linalg.qr(np.cos(np.outer(np.arange(d) + 1, np.arange(d) + 0.5)))[0]
    yield "as returned", np.eye(d)
    yield "generic", np.linalg.qr(np.cos(np.outer(np.arange(d) + 1, np.arange(d) + 0.5)) + 1j * np.sin(np.outer(np.arange(d) + 2, np.arange(d) ** 2 + 0.3)))[0]
    for t in RATIOS if tier == "thorough" else RATIOS[:3]:
        for a in PHASES:
            phi = np.arctan(t)
            al = np.array([a, 2 * phi - a] + [-2 * phi] * d)[:d]
            yield f"phases {t:.3f} {a}", q @ np.diag(np.exp(0.5j * al)) @ q.T


def direct(task, rec):
    """The conversion of one irrep, in bases other than the one the package enumerates."""
    from spgrep import get_crystallographic_pointgroup_irreps_from_symmetry as P
    from spgrep.irreps import enumerate_unitary_irreps as E, get_physically_irrep as Y
    from spgrep.representation import frobenius_schur_indicator as F

    _, h, R, tier = task
    R = np.array(R)
    n = len(R)
    t = group_table(R)
    irreps = call(rec, f"pointgroup of hall={h}", P, R)
    real = call(rec, f"pointgroup of hall={h} real", E, R, real=True)
    if irreps is None or real is None:
        return
    for a, D in enumerate(irreps):
        for bn, V in bases(D.shape[1], tier):
            name = f"pointgroup of hall={h} irrep {a} basis {bn}"
            # start from a real matrix form if there is one, so that the phases are those of the basis
            form = next((p for p in real[0] if p.shape[1] == D.shape[1] and np.abs(chars([p])[0] - chars([D])[0]).max() < 1e-6), D)
            X = V @ form @ V.conj().T
            v = call(rec, name, F, X)
            if v is None:
                continue
            out = call(rec, name, Y, X, int(v))
            if out is None:
                continue
            rec.model(n, n * n, 1)
            msg = basic([out])
            if msg is None and out.shape[1] != D.shape[1] * (1 if v == 1 else 2):
                msg = f"dimension {out.shape[1]} from {D.shape[1]}, indicator {v}"
            msg = msg or self_conjugate_case([out], [v], [D], t, np.ones((n, n)), n)
            done(rec, name, msg, [out], [X])


def self_conjugate_case(pirs, inds, irreps, table, f, n):
    """2k = 0 (or a point group with real factors): message or None."""
    c = chars(irreps)
    pc = chars(pirs)
    f = np.asarray(f)
    real_f = np.abs(np.imag(f)).max() < 1e-9
    assert real_f
    mult = (np.conj(c) @ pc.T) / n
    mr = np.rint(mult.real)
    if np.abs(mult - mr).max() > 1e-4:
        return "character multiplicities are not integers"
    if not np.all((mr > 0).sum(axis=1) == 1):
        return f"complex irreps covered {(mr > 0).sum(axis=1).astype(int).tolist()} times, expected once each"
    sq = table[np.arange(n), np.arange(n)]
    for a, (p, v) in enumerate(zip(pirs, inds)):
        x = product_residual(p, table, f.real)
        if not x < 1e-6:
            return f"real irrep {a} (dim {p.shape[1]}, indicator {v}): multiplication rule violated, residual {x:.3g}"
        norm = (np.abs(pc[a]) ** 2).sum() / n
        if abs(norm - {1: 1, 0: 2, -1: 4}.get(int(v), -9)) > 1e-4:
            return f"real irrep {a}: squared norm {norm:.3f} does not fit indicator {v}"
        fs = (np.array([f[i, i] for i in range(n)]) * pc[a][sq]).sum().real / n
        if abs(fs - {1: 1, 0: 0, -1: -2}[int(v)]) > 1e-4:
            return f"real irrep {a}: sum over squares {fs:.3f} does not fit indicator {v}"
    return None


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_spacegroup_irreps_from_primitive_symmetry as G,
    )
    from spgrep.irreps import enumerate_small_representations as S, enumerate_unitary_irreps as E

    kind, h, R, tier = task
    if kind == "direct":
        direct(task, rec)
        return
    if kind == "pg":
        R = np.array(R)
        cases = [(f"order={o}", R[p]) for o, p in orderings(len(R))[:: 1 if tier == "thorough" else 4]]
        cases += [(f"basis={u.tolist()}", Q) for i, (u, Q) in enumerate(conjugates(R, 1)) if tier == "thorough" or i % 8 == h % 8]
        for i, (nm, Q) in enumerate(cases):
            n = len(Q)
            t = group_table(Q)
            for method in ("Neto", "random"):
                name = f"pointgroup of hall={h} {nm} method={method}"
                irreps = call(rec, name, P, Q, method=method)
                pirs = call(rec, name, P, Q, real=True, method=method)
                pi2 = call(rec, name, E, Q, real=True, method=method)
                if irreps is None or pirs is None or pi2 is None:
                    continue
                rec.model(n, n * n, len(pirs))
                msg = basic(pirs) or basic(pi2[0]) or (
                    "the two enumerations differ in number" if len(pi2[0]) != len(pirs) or len(pi2[1]) != len(pirs) else None)
                msg = msg or self_conjugate_case(pirs, pi2[1], irreps, t, np.ones((n, n)), n)
                msg = msg or self_conjugate_case(pi2[0], pi2[1], irreps, t, np.ones((n, n)), n)
                done(rec, name, msg, pirs, irreps)
        return
    std = hall_std_primitive(h)
    for i, k in enumerate(star_representatives(std, trim())):
        for d in ("none",) + (DEVS if tier == "thorough" else (DEVS[(i + h) % len(DEVS)],)):
            ops, kk = deviate(d, std, k)
            spacegroup(rec, G, S, h, k, d, ops, kk, True)
    for k in star_representatives(std, generic(tier)):
        spacegroup(rec, G, S, h, k, "none", std, k, False)


def basic(pirs):
    for a, p in enumerate(pirs):
        if np.iscomplexobj(p):
            return f"real irrep {a} has complex entries"
        if not np.all(np.isfinite(p)):
            return f"real irrep {a} has non-finite entries"
        x = unitary_residual(p)
        if not x < 1e-6:
            return f"real irrep {a} (dim {p.shape[1]}) is not orthogonal, residual {x:.3g}"
    return None


def done(rec, name, msg, pirs, irreps):
    if msg:
        rec.violation(name, msg)
        return
    if any(p.shape[1] > 1 for p in pirs):
        rec.count("nontrivial")
    rec.sample(f"{name}: complex dimensions {[x.shape[1] for x in irreps]}, real dimensions {[x.shape[1] for x in pirs]}")


def spacegroup(rec, G, S, h, k, d, ops, kk, self_conj):
    R, t = ops.floats()
    li = little_indices(ops, kk)
    m = Model(ops.subset(li), kk)
    n = len(li)
    f = m.phase_complex()
    counts = {}
    for method in ("Neto", "random"):
        name = f"hall={h} k={fmt(k)} dev={d} method={method}"
        irr = call(rec, name, S, R[li], t[li], kfloat(kk), method=method)
        out = call(rec, name, S, R[li], t[li], kfloat(kk), real=True, method=method)
        top = call(rec, name, G, R, t, kfloat(kk), real=True, method=method)
        if irr is None or out is None or top is None:
            continue
        if [int(x) for x in top[1]] != li:
            rec.violation(name, f"little group {list(top[1])}, exact {li}")
            continue
        irreps = irr[0]
        for which, pirs in (("small", out[0]), ("spacegroup", top[0])):
            inds = out[1]
            rec.model(n, n * n, len(pirs))
            msg = basic(pirs)
            if msg is None and len(inds) != len(pirs):
                msg = f"{len(inds)} indicators for {len(pirs)} real irreps"
            if msg is None and self_conj:
                msg = self_conjugate_case(pirs, inds, irreps, m.table, f, n)
            elif msg is None:
                msg = generic_case(pirs, inds, irreps, m, f, n)
                counts[len(pirs)] = len(irreps)
            done(rec, f"{name} from={which}", msg, pirs, irreps)
    for got, want in counts.items():
        if got != want:
            rec.violation(f"hall={h} k={fmt(k)} real irreps: {got} of {want}",
                          f"{got} real irreps returned, but each of the {want} small irreps at k (k and -k inequivalent) gives its own")


def generic_case(pirs, inds, irreps, m, f, n):
    """2k is no reciprocal lattice vector: real irreps are D + D* with D at k and D* at -k, in the
    documented basis where a translation acts as [[cos, -sin], [sin, cos]]."""
    Ds = []
    for a, (p, v) in enumerate(zip(pirs, inds)):
        if int(v) != 0:
            return f"real irrep {a}: indicator {v}, expected 0"
        if p.shape[1] % 2:
            return f"real irrep {a}: odd dimension {p.shape[1]}"
        d = p.shape[1] // 2
        A, B = p[:, :d, :d], p[:, :d, d:]
        if np.abs(p[:, d:, d:] - A).max() > 1e-6 or np.abs(p[:, d:, :d] + B).max() > 1e-6:
            return f"real irrep {a} does not commute with the translations"
        D = A + 1j * B
        x = product_residual(D, m.table, f)
        if not x < 1e-6:
            return f"real irrep {a}: multiplication rule violated, residual {x:.3g}"
        Ds.append(D)
    c = chars(Ds)
    g = np.conj(c) @ c.T / n
    if np.abs(g - np.eye(len(Ds))).max() > 1e-4:
        return "real irreps are reducible or repeated"
    return None
