"""C25: input that is not a group of operations of a primitive cell is refused, never answered wrongly."""
from __future__ import annotations

import itertools
from fractions import Fraction as F

import numpy as np

from mc.exact import Model, Ops, centring_vectors, hall_conventional, key, kfloat, mod1, msg_conventional, num_projective_irreps
from mc.gen import hall_std_primitive, lattice_for, msg_std_primitive
from mc.reps import check_complete
from mc.util import call, classes, group_table, num_classes, refused

RULE = (
    "one case = one defective input (centred cell, extra pure translation, operations left out, unknown method, mismatching sizes): an error must be raised; "
    "operations left out such that a group remains must give the complete result of that group"
)
CHUNK = 2
Z = (F(0),) * 3
KS = (Z, (F(1, 2), F(0), F(0)), (F(1, 2),) * 3, (F(0), F(0), F(1, 5)))
EXTRA = ((F(1, 2), F(0), F(0)), (F(0), F(1, 2), F(1, 2)), (F(1, 2),) * 3, (F(1, 3), F(2, 3), F(2, 3)), (F(0), F(0), F(1, 4)), (F(1, 100), F(0), F(0)))


def bounds(tier):
    return ("all centred cells of 530 Hall numbers and 1651 magnetic groups x 4 k vectors; all primitive cells with one extra pure translation of 6, at 3 places in the list; 122 point groups: every subset up to order 8, "
            f"every subset lacking at most {'3' if tier == 'thorough' else '1 (2 up to order 24)'} operations above, ordinary and spin; unknown methods; all mismatching shapes up to 3 x 3 x 3; "
            "122 point groups x 40 arguments of 20 entry points of another length (every length up to one more than the order); 16 groups of rotations by angles that no lattice has")


def tasks(tier):
    out = [("hall", h, None, tier) for h in range(1, 531)] + [("msg", u, None, tier) for u in range(1, 1652)]
    return [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + out + [("method", 0, None, tier), ("shape", 0, None, tier), ("foreign", 0, None, tier)] + [("sizes", h, R.tolist(), tier) for h, R in classes()]


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as PS,
        get_spacegroup_irreps_from_primitive_symmetry as G,
        get_spacegroup_spinor_irreps_from_primitive_symmetry as GS,
    )
    from spgrep.pointgroup import get_pointgroup_chain_generators as C

    kind, h, R, tier = task
    if kind in ("hall", "msg"):
        conv, std = (hall_conventional(h), hall_std_primitive(h)) if kind == "hall" else (msg_conventional(h), msg_std_primitive(h))
        L = lattice_for(np.unique(std.R, axis=0))
        lin = kind == "hall"
        bad = [("centred cell", conv)] if len(centring_vectors(conv)) > 1 else []
        for i, t in enumerate(EXTRA if lin or tier == "thorough" else EXTRA[h % 6 :: 6]):
            n = len(std)
            at = (0, n // 2, n)[(i + h) % 3]
            Rn = np.insert(std.R, at, np.eye(3, dtype=int), axis=0)
            tn = list(std.t[:at]) + [t] + list(std.t[at:])
            tr = None if std.tr is None else np.insert(std.tr, at, 0)
            bad.append((f"extra translation {','.join(map(str, t))} at {at}", Ops(Rn, tn, tr)))
        for what, ops in bad:
            r, t = ops.floats()
            for j, k in enumerate(KS if tier == "thorough" or (lin and what == "centred cell") else (KS[(h + len(what)) % 4],)):
                name = f"{kind}={h} {what} k={','.join(map(str, k))}"
                if lin:
                    refused(rec, name, lambda: G(r, t, kfloat(k), method=("Neto", "random")[(h + j) % 2]))
                    refused(rec, name + " spin", lambda: GS(L, r, t, kpoint=kfloat(k)))
                else:
                    refused(rec, name, lambda: GS(L, r, t, ops.tr, kfloat(k)))
        if bad:
            rec.sample(f"{kind}={h}: {[b[0] for b in bad][:3]}")
        return
    if kind == "method":
        std = hall_std_primitive(115)
        r, t = std.floats()
        L = lattice_for(r)
        m = msg_std_primitive(8)
        mr, mt = m.floats()
        cell = (np.diag([3.0, 4.0, 5.0]), np.zeros((1, 3)), np.array([1]))
        from spgrep import get_spacegroup_irreps as S, get_spacegroup_spinor_irreps as SS
        from spgrep.irreps import enumerate_small_representations as ES, enumerate_unitary_irreps as EU

        for method in ("neto", "NETO", "Random", "", "regular", "Neto ", None, 0):
            for name, fn in (
                ("space group", lambda: G(r, t, np.zeros(3), method=method)),
                ("space group over the reals", lambda: G(r, t, np.zeros(3), real=True, method=method)),
                ("space group spin", lambda: GS(L, r, t, kpoint=np.zeros(3), method=method)),
                ("magnetic", lambda: GS(lattice_for(mr), mr, mt, m.tr, np.zeros(3), method=method)),
                ("point group", lambda: P(r, method=method)),
                ("point group spin", lambda: PS(L, r, method=method)),
                ("crystal", lambda: S(*cell, np.zeros(3), method=method)),
                ("crystal spin", lambda: SS(*cell, kpoint=np.zeros(3), method=method)),
                ("small", lambda: ES(r, t, np.zeros(3), method=method)),
                ("unitary", lambda: EU(r, method=method)),
            ):
                refused(rec, f"{name} method={method!r}", fn)
        rec.sample("method 'neto' for every entry point")
        return
    if kind == "shape":
        from spgrep.representation import get_direct_product as D, project_to_irrep as J

        rng = (1, 2, 3)
        for n1, a, b in itertools.product(rng, repeat=3):
            for n2, c, d in itertools.product(rng, repeat=3):
                ok = n1 == n2 and a == b and c == d
                if ok:
                    continue
                X, Y = np.ones((n1, a, b)), np.ones((n2, c, d))
                refused(rec, f"direct product of shapes {X.shape} and {Y.shape}", lambda: D(X, Y))
                refused(rec, f"projection of shape {X.shape} on shape {Y.shape}", lambda: J(X, Y))
        rec.sample("shapes (2,3,3) and (3,1,1)")
        return
    if kind == "foreign":
        return foreign(rec)
    R = np.array(R)
    n = len(R)
    if kind == "sizes":
        return sizes(rec, f"pointgroup of hall={h}", R)
    full = range(n)
    if n <= 8:
        subsets = [s for m in range(1, n + 1) for s in itertools.combinations(full, m)]
    else:
        drop = (1, 2, 3) if tier == "thorough" and n <= 24 else (1, 2) if tier == "thorough" or n <= 24 else (1,)
        subsets = [tuple(i for i in full if i not in x) for m in drop for x in itertools.combinations(full, m)]
    t = group_table(R)
    L = lattice_for(R, "generic")
    for s in subsets:
        Q = R[list(s)]
        S = set(s)
        closed = all(t[a, b] in S for a in s for b in s)
        name = f"pointgroup of hall={h}, operations {list(s) if len(s) < 9 else 'all but ' + str([i for i in full if i not in S])}"
        for method in ("Neto", "random"):
            if not closed:
                refused(rec, f"{name} method={method}", lambda: P(Q, method=method), (Exception,))
                refused(rec, f"{name} spin method={method}", lambda: PS(L, Q, method=method), (Exception,))
                if method == "Neto":
                    refused(rec, f"{name} chain", lambda: C(Q), (Exception,))
            else:
                out = call(rec, name, P, Q, method=method)
                if out is None:
                    continue
                tq = group_table(Q)
                rec.model(len(s), len(s) ** 2)
                msg = check_complete(out, tq, np.ones((len(s), len(s))), len(s), num_classes(tq))
                if msg:
                    rec.violation(f"{name} method={method}", msg)
    rec.sample(f"pointgroup of hall={h}: {len(subsets)} subsets")


def sizes(rec, name, R):
    """Every entry point, every argument that has to have one entry per operation, with any other number of entries."""
    from spgrep import core, corep, group, irreps, representation as rp, spinor, transform as tf

    n = len(R)
    L = lattice_for(R)
    z, t = np.zeros(3), np.zeros((n, 3))
    kpt = np.array([0.0, 0.0, 0.5])
    tr = (np.linalg.det(R) < 0).astype(int)
    fs, eye = np.ones((n, n)), np.ones((n, 1, 1), dtype=complex)
    table = group_table(R)
    n1 = n - 1

    def cut(x, m):
        return x[:m] if m <= n else np.concatenate([x, x[: m - n]])

    def table_of(m):
        return table[:m, :m] if m <= n else np.pad(table, (0, m - n), constant_values=n1)

    def system(a, b):
        return np.ones((a, b))

    for m in [i for i in range(1, n + 2) if i != n]:
        Rm, tm, trm, em = cut(R, m), cut(t, m), cut(tr, m), cut(eye, m)
        answers = {
            "primitive, translations": lambda: core.get_spacegroup_irreps_from_primitive_symmetry(R, tm, z),
            "primitive, rotations": lambda: core.get_spacegroup_irreps_from_primitive_symmetry(Rm, t, z),
            "spin, translations": lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, tm, kpoint=z),
            "spin, rotations": lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, Rm, t, kpoint=z),
            "magnetic, translations": lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, tm, tr, z),
            "magnetic, rotations": lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, Rm, t, tr, z),
            "magnetic, time reversals": lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, t, trm, z),
            "magnetic point group, time reversals": lambda: core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, R, trm),
            "magnetic point group, rotations": lambda: core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, Rm, tr),
            "little group, translations": lambda: group.get_little_group(R, tm, kpt),
            "little group, rotations": lambda: group.get_little_group(Rm, t, kpt),
            "little group, time reversals": lambda: group.get_little_group(R, t, kpt, time_reversals=trm),
            "factor system, translations": lambda: group.get_factor_system_from_little_group(R, tm, z),
            "factor system, rotations": lambda: group.get_factor_system_from_little_group(Rm, t, z),
            "factor system, time reversals": lambda: group.get_factor_system_from_little_group(R, t, z, trm),
            "multiplication table, time reversals": lambda: group.get_cayley_table(R, trm),
            "cosets, translations": lambda: group.decompose_by_maximal_space_subgroup(R, tm, tr),
            "cosets, rotations": lambda: group.decompose_by_maximal_space_subgroup(Rm, t, tr),
            "cosets, time reversals": lambda: group.decompose_by_maximal_space_subgroup(R, t, trm),
            "unique operations, translations": lambda: tf.unique_primitive_symmetry(R, tm),
            "unique operations, rotations": lambda: tf.unique_primitive_symmetry(Rm, t),
            "unique operations, time reversals": lambda: tf.unique_primitive_symmetry(R, t, trm),
            "change of basis, translations": lambda: tf.transform_symmetry_and_kpoint(np.eye(3), R, tm, z),
            "change of basis, rotations": lambda: tf.transform_symmetry_and_kpoint(np.eye(3), Rm, t, z),
            "small representations, translations": lambda: irreps.enumerate_small_representations(R, tm, z),
            "small representations, rotations": lambda: irreps.enumerate_small_representations(Rm, t, z),
            "small co-representations, time reversals": lambda: corep.enumerate_spinor_small_corepresentations(L, R, t, trm, z),
            "small co-representations, translations": lambda: corep.enumerate_spinor_small_corepresentations(L, R, tm, tr, z),
            "small spin representations, translations": lambda: spinor.enumerate_spinor_small_representations(L, R, tm, z),
            "unitary irreps, factor system": lambda: irreps.enumerate_unitary_irreps(R, system(m, m)),
            "unitary irreps at random, factor system": lambda: irreps.enumerate_unitary_irreps(R, system(m, m), method="random"),
            "unitary irreps, rows of the factor system": lambda: irreps.enumerate_unitary_irreps(R, system(m, n)),
            "unitary irreps, columns of the factor system": lambda: irreps.enumerate_unitary_irreps(R, system(n, m)),
            "regular representation, factor system": lambda: rp.get_projective_regular_representation(R, system(m, m)),
            "intertwiner": lambda: rp.get_intertwiner(eye, em),
        }
        for what, fn in answers.items():
            refused(rec, f"{name}: {what}: {m} instead of {n}", fn, (Exception,))
        verdicts = {
            "is_representation, matrices": lambda: rp.is_representation(em, table),
            "is_representation, table": lambda: rp.is_representation(eye, table_of(m)),
            "space-group representation, matrices": lambda: rp.check_spacegroup_representation(R, t, z, em),
            "space-group representation, translations": lambda: rp.check_spacegroup_representation(R, tm, z, eye),
            "cocycle condition, factor system": lambda: group.check_cocycle_condition(R, system(m, m)),
        }
        for what, fn in verdicts.items():
            rec.model(1, 1)
            try:
                ok = not fn()
            except Exception:
                ok = True
            rec.count("nontrivial")
            if not ok:
                rec.violation(f"{name}: {what}: {m} instead of {n}", "accepted")
    rec.sample(f"{name}: all lengths other than {n}")


def foreign(rec):
    """Groups of rotations that no lattice has: refused, or answered completely."""
    from spgrep import get_crystallographic_pointgroup_irreps_from_symmetry as P

    def rot(axis, order):
        v = 2 * np.pi / order
        a = np.array(axis, dtype=float) / np.linalg.norm(axis)
        K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        return np.eye(3) + np.sin(v) * K + (1 - np.cos(v)) * K @ K

    def close(*gens):
        G = [np.eye(3)]
        for a in G:
            for b in gens:
                c = a @ b
                if min(np.abs(c - x).max() for x in G) > 1e-6:
                    G.append(c)
        return np.array(G)

    g = (1 + 5**0.5) / 2
    groups = {f"rotations by 1/{m} about {ax}": close(rot(ax, m)) for m in (5, 7, 8, 10, 12) for ax in ((0, 0, 1), (1, 2, 3))}
    groups.update({f"dihedral {m}": close(rot((0, 0, 1), m), np.diag([1.0, -1, -1])) for m in (5, 8, 12)})
    groups.update({f"rotoreflection {m}": close(-rot((0, 0, 1), m)) for m in (8, 12)})
    groups["icosahedral"] = close(rot((0, 1, g), 5), rot((1, 1, 1), 3))
    for name, Q in groups.items():
        n = len(Q)
        t = np.array([[int(np.argmin([np.abs(a @ b - x).max() for x in Q])) for b in Q] for a in Q])
        for method in ("Neto", "random"):
            rec.model(1, 1)
            rec.count("nontrivial")
            try:
                out = P(Q, method=method)
            except Exception:
                continue
            msg = check_complete(out, t, np.ones((n, n)), n, num_classes(t))
            if msg:
                rec.violation(f"{name} method={method}", msg)
    rec.sample("rotations by a fifth, dihedral 12, icosahedral: refused or complete")
