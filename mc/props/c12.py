"""C12: regular representations, direct products and decomposition into irreps."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, kfloat, kgrid, little_indices, star_representatives
from mc.gen import LINES, cart, hall_std_primitive, lattice_for
from mc.props.c11 import dsum, kron, mix, noise
from mc.reps import chars, check_complete, product_residual, unitary_residual
from mc.util import call, classes, conjugates, fmt, group_table, mismatches, orderings, refused

RULE = "one case = one regular representation, direct product or decomposition compared entry by entry or by exact multiplicities"
CHUNK = 1


def bounds(tier):
    return ("122 rotation sets x orders x {ordinary, spin} regular representations, decomposition of vector, rank-2, regular (up to order 24), sums with "
            "repetitions, the same with noise of 1e-10 and 1e-8; 530 Hall numbers x k vectors: projective regular representations and sums of small irreps with multiplicities up to 3; mismatching sizes up to order 6 and dimension 3")


def tasks(tier):
    return [("shape", n, None, tier) for n in (1, 2, 3, 4, 6)] + [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("sg", h, None, tier) for h in range(530, 0, -1)]


def decomposition(rec, name, X, rep, table, f, irr, tol=1e-6):
    """X must be exactly one unitary copy of every irrep (list irr) occurring in rep."""
    n = len(rep)
    rec.model(n, n * n, len(X))
    cr = chars([rep])[0]
    ci = chars(irr)
    mult = np.rint((np.conj(ci) @ cr / n).real).astype(int)
    want = [a for a in range(len(irr)) if mult[a] > 0]
    if len(X) != len(want):
        rec.violation(name, f"{len(X)} irreps returned, {len(want)} inequivalent ones occur (multiplicities {mult.tolist()})")
        return
    g = np.rint(np.abs(np.conj(ci[want]) @ chars(X).T / n))
    if not (np.all(g.sum(0) == 1) and np.all(g.sum(1) == 1)):
        rec.violation(name, "returned irreps are not those occurring in the representation")
        return
    for a, D in enumerate(X):
        if not unitary_residual(D) < tol or not product_residual(D, table, f) < tol:
            rec.violation(name, f"returned irrep {a} is not a unitary representation")
            return
    if len(want) > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: dimension {rep.shape[1]}, multiplicities {mult.tolist()}")


def check(task, rec):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as G, get_crystallographic_pointgroup_irreps_from_symmetry as P
    from spgrep.group import get_factor_system_from_little_group as FS
    from spgrep.irreps import decompose_representation as X, enumerate_unitary_irreps_from_regular_representation as E
    from spgrep.representation import (
        get_character, get_direct_product as KP, get_projective_regular_representation as PR, get_regular_representation as RR,
    )
    from spgrep.spinor import get_spinor_factor_system as Z

    kind, h, R, tier = task
    if kind == "shape":
        for a, b in mismatches():
            if a[0] == h:
                refused(rec, f"product of shapes {a} and {b}", lambda: KP(np.ones(a), np.ones(b)))
        rec.sample(f"sizes that do not match {h}")
        return
    if kind == "pg":
        R = np.array(R)
        os = orderings(len(R))
        for oname, perm in os if tier == "thorough" else os[:: max(1, len(os) // 3)]:
            Q = R[perm]
            t = group_table(Q)
            n = len(Q)
            name = f"pointgroup of hall={h} order={oname}"
            L = lattice_for(Q, "generic")
            omega, U = Z(L, Q)
            ref = np.zeros((n, n, n))
            for g in range(n):
                ref[g, t[g], np.arange(n)] = 1
            reg = call(rec, name + " regular", RR, Q)
            if reg is None or reg.shape != (n, n, n) or not np.array_equal(reg, ref):
                rec.violation(name + " regular", "regular representation has a wrong entry")
                continue
            refp = np.zeros((n, n, n), dtype=complex)
            for g in range(n):
                refp[g, t[g], np.arange(n)] = omega[g]
            preg = call(rec, name + " projective regular", PR, Q, omega)
            if preg is None or preg.shape != (n, n, n) or np.abs(preg - refp).max() > 1e-12:
                rec.violation(name + " projective regular", "projective regular representation has a wrong entry")
                continue
            ones = np.ones((n, n))
            for nm, r, f in (("regular", reg, ones), ("projective regular", preg, omega)):
                out = call(rec, f"{name} {nm}", E, r)
                if out is not None:
                    rec.model(n, n * n, len(out))
                    msg = check_complete(out, t, f, n)
                    if msg:
                        rec.violation(f"{name} {nm}", msg)
            irr = call(rec, name, P, Q)
            if irr is None:
                continue
            V = np.array([cart(L, r) for r in Q])
            kp = call(rec, name + " product", KP, V, U)
            if kp is None or np.abs(kp - kron(V, U)).max() > 1e-12:
                rec.violation(name + " product", "direct product differs from the Kronecker product")
            ch = call(rec, name + " character", get_character, V)
            if ch is None or np.abs(ch - chars([V])[0]).max() > 1e-12:
                rec.violation(name + " character", "character is not the trace")
            reps = {"vector": V, "rank2": kron(V, V), "2 vectors": dsum(V, V), "trivial + rank2": dsum(np.ones((n, 1, 1)), kron(V, V))}
            if n <= 24 or tier == "thorough":
                reps["regular"] = ref
            for rn, rep in reps.items():
                out = call(rec, f"{name} rep={rn}", X, rep)
                if out is not None:
                    decomposition(rec, f"{name} rep={rn}", out, rep, t, ones, irr)
                for eta in (1e-10, 1e-8) if oname == "as-listed" and rn != "regular" else ():
                    out = call(rec, f"{name} rep={rn} noise={eta:g}", X, rep + eta * noise(rep.shape))
                    if out is not None:
                        decomposition(rec, f"{name} rep={rn} noise={eta:g}", out, rep, t, ones, irr, 1e4 * eta)
        return
    ops = hall_std_primitive(h)
    Rf, tf = ops.floats()
    ks = star_representatives(ops, kgrid(2) + kgrid(3) + LINES) if tier == "thorough" else star_representatives(ops, kgrid(2)[1:] + LINES[h % 6 :: 6])
    for i, k in enumerate(ks):
        li = little_indices(ops, k)
        n = len(li)
        m = Model(ops.subset(li), k)
        name = f"hall={h} k={fmt(k)}"
        ph = m.little_phase()
        # factor system of the little co-group, exactly
        f = m.phase_complex() * ph[m.table] / (ph[:, None] * ph[None, :])
        ref = np.zeros((n, n, n), dtype=complex)
        for g in range(n):
            ref[g, m.table[g], np.arange(n)] = f[g]
        preg = call(rec, name + " regular", PR, Rf[li], f)
        if preg is None or np.abs(preg - ref).max() > 1e-12:
            rec.violation(name + " regular", "projective regular representation has a wrong entry")
            continue
        out = call(rec, name + " regular", E, preg)
        if out is not None:
            rec.model(n, n * n, len(out))
            msg = check_complete(out, m.table, f, n)
            if msg:
                rec.violation(name + " regular", msg)
        got = call(rec, name, G, Rf, tf, kfloat(k), method=("Neto", "random")[(i + h) % 2])
        if got is None:
            continue
        irr = got[0]
        rep = dsum(*[irr[a] for a in range(min(4, len(irr))) for _ in range(1 + a % 3)])
        W = mix(rep.shape[1])
        for rn, r in (("sum", rep), ("mixed sum", np.einsum("ij,njk,lk->nil", W, rep, np.conj(W)))):
            out = call(rec, f"{name} rep={rn}", X, r)
            if out is not None:
                decomposition(rec, f"{name} rep={rn}", out, r, m.table, m.phase_complex(), irr)
