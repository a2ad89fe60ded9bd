"""C29: tolerances given by the caller: k vectors and translations known only approximately."""
from __future__ import annotations

import warnings
from fractions import Fraction as F

import numpy as np

from mc.exact import Model, Ops, centring_vectors, hall_conventional, kfloat, little_indices, mat_vec, msg_conventional
from mc.gen import hall_std_primitive, lattice_for, msg_std_primitive
from mc.props.c02 import match_ops
from mc.props.c27 import Script, attempt, copies, orientation, regular
from mc.reps import chars, check_complete, product_residual, unitary_residual
from mc.spin import check_corep_set, check_lift
from mc.structures import lattice_little, magnetic_structure, memoise_symmetry_search, orbit_structure
from mc.util import classes, fmt, group_table, num_classes

RULE = (
    "one case = (entry point, group, k vector, displacement of k and noise of the translations, tolerance): inside the tolerance the little group and the "
    "irreps must be those of the exact k up to an error in proportion, outside those of the displaced k, computed exactly"
)
CHUNK = 2
KS = ((F(1, 3), F(1, 3), F(0)), (F(1, 2),) * 3, (F(0), F(0), F(1, 2)), (F(0),) * 3, (F(1, 2), F(0), F(0)), (F(1, 4),) * 3, (F(1, 2), F(1, 2), F(0)), (F(1, 3), F(1, 3), F(1, 2)))
DIRS = ((1, 0, 0), (0, 1, 0), (1, -2, 3), (0, 0, 1), (1, 1, 1))
# name, size of the displacement of k, inside?, keywords, noise of the translations
CASES = (
    ("inside default", F(1, 2 * 10**9), True, {}, 0.0),
    ("inside 1e-6", F(1, 2 * 10**7), True, {"atol": 1e-6}, 0.0),
    ("inside 1e-5", F(1, 2 * 10**6), True, {"atol": 1e-5}, 0.0),
    ("inside 1e-5 noisy translations", F(1, 2 * 10**6), True, {"atol": 1e-5}, 1e-7),
    ("inside 1e-4, rtol 1e-2", F(1, 2 * 10**5), True, {"atol": 1e-4, "rtol": 1e-2}, 0.0),
    ("outside default", F(1, 10**6), False, {}, 0.0),
    ("outside default, noisy translations", F(1, 10**4), False, {}, 1e-10),
    ("outside 1e-6", F(1, 10**4), False, {"atol": 1e-6}, 0.0),
    ("outside 1e-5", F(1, 10**3), False, {"atol": 1e-5}, 0.0),
)


def bounds(tier):
    q = tier == "quick"
    return (f"530 Hall settings (complex, real and spin irreps, in a primitive cell and from crystals) and 1651 magnetic groups x {'2 or 3 of ' if q else ''}{len(KS)} k vectors x "
            f"{'up to 3 of ' if q else ''}{len(CASES)} combinations of displacement (1e-9 to 1e-3), tolerance (default, 1e-6 to 1e-4) and noise of the translations x {'one of ' if q else ''}{len(DIRS)} directions; draws of the random method with two eigenvalues closer than the default rtol, at all entry points (122 rotation sets, 530 Hall settings, magnetic groups, crystals) x 3 places x 2 values of rtol")


def tasks(tier):
    return ([("sg", h, tier) for h in range(530, 0, -1)] + [("msg", u, tier) for u in range(1651, 0, -1)]
            + [("rtol pg", h, tier) for h, _ in classes()] + [("rtol sg", h, tier) for h in range(530, 0, -1)]
            + [("rtol msg", u, tier) for u in range(1651, 0, -1) if tier == "thorough" or u % 5 == 0])


def noise(n, size):
    return size * np.sin(np.arange(3 * n).reshape(n, 3) ** 2 + 0.3)


def run(rec, name, fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = fn()
        except Exception as e:
            rec.violation(name, f"raised {e!r}"[:300])
            return None
    uw = [x for x in w if issubclass(x.category, UserWarning)]
    if uw:
        rec.violation(name, f"warning: {uw[-1].message}"[:300])
        return None
    return out


def real_check(reps, t, f, n, tol):
    """Orthogonal representations, irreducible over the reals, pairwise inequivalent and complete."""
    total, cs = 0.0, []
    for a, x in enumerate(reps):
        if np.iscomplexobj(x) or not np.all(np.isfinite(x)):
            return f"real irrep {a} has complex or non-finite entries"
        r = max(unitary_residual(x), product_residual(x, t, f))
        if not r < tol:
            return f"real irrep {a} is not an orthogonal representation ({r:.3g})"
        c = chars([x])[0]
        norm = float((np.abs(c) ** 2).sum() / n)
        fs = float(np.einsum("nij,nji->", x, x) / n)
        if round(norm) not in (1, 2, 4) or abs(norm - round(norm)) > 1e-2 or abs(norm + fs - 2) > 1e-2:
            return f"real irrep {a} is reducible over the reals (norm {norm:.4g}, indicator {fs:.4g})"
        total += x.shape[1] ** 2 / norm
        cs.append(c)
    g = np.abs(np.conj(cs) @ np.array(cs).T) / n
    if (g - np.diag(np.diag(g))).max() > 1e-2:
        return "two real irreps share a constituent"
    return None if abs(total - n) < 1e-2 else f"weighted sum of squared dimensions {total:.4g}, expected {n}"


def verdict(rec, name, msg, n, changed):
    rec.model(n, n * n)
    if msg:
        rec.violation(name, msg)
        return
    if changed:
        rec.count("nontrivial")
    rec.sample(name)


def close_draws(qs, turn):
    """Random numbers for which two eigenvalues, of different irreducible subspaces, differ by a fraction of 1e-6."""
    for i in sorted({0, len(qs) // 2, len(qs) - 2} - {-1}):
        lv = [float(x) for x in range(1, len(qs) + 1)]
        lv[i + 1 if i + 1 < len(lv) else 0] = lv[i] * (1 + 1e-6)
        yield attempt(turn(sum(x * q @ q.conj().T for x, q in zip(lv, qs))))


def relative(rec, name, t, f, fn, ok):
    """With a draw like that, the default rtol needs another one; a small rtol does not."""
    if len(t) == 1:
        return
    qs = copies(regular(t, f))
    turn = orientation(qs, lambda: fn(max_num_random_generations=1))
    if turn is None:
        rec.count("draws_without_aimed_effect")
        return
    for i, draws in enumerate(close_draws(qs, turn)):
        with warnings.catch_warnings(record=True) as w, Script(draws) as s:
            warnings.simplefilter("always")
            try:
                fn(max_num_random_generations=1)
                failed = any(issubclass(x.category, UserWarning) for x in w)
            except Exception:
                failed = True
        if not s.used or not failed:
            rec.count("close_eigenvalues_without_effect")
            continue
        rec.count("nontrivial")
        for rtol, n in ((1e-9, 1), (1e-8, 1)):
            nm = f"{name} gap {i} rtol={rtol:g}"
            with Script(draws):
                out = run(rec, nm, lambda: fn(rtol=rtol, max_num_random_generations=n))
            if out is None:
                continue
            rec.model(1, len(t))
            msg = ok(out)
            if msg:
                rec.violation(nm, msg)
            else:
                rec.sample(nm)


def rtol_reaches(task, rec):
    import spglib
    import spgrep as S

    kind, h, tier = task
    kw0 = {"method": "random"}
    if kind == "rtol pg":
        R = dict(classes())[h]
        t = group_table(R)
        n = len(R)
        one = np.ones((n, n))
        L = lattice_for(R, "generic")
        P, PS = S.get_crystallographic_pointgroup_irreps_from_symmetry, S.get_crystallographic_pointgroup_spinor_irreps_from_symmetry
        name = f"pointgroup of hall={h}"
        relative(rec, name, t, one, lambda **kw: P(R, **kw0, **kw), lambda o: check_complete(o, t, one, n, num_classes(t)))
        relative(rec, name + " real", t, one, lambda **kw: P(R, real=True, **kw0, **kw), lambda o: real_check(o, t, one, n, 1e-6))
        f = PS(L, R)[1]
        relative(rec, name + " spin", t, f, lambda **kw: PS(L, R, **kw0, **kw), lambda o: check_complete(o[0], t, o[1], n))
        return
    mag = kind == "rtol msg"
    ops = msg_std_primitive(h) if mag else hall_std_primitive(h)
    Rf, tf = ops.floats()
    L = lattice_for(Rf, "generic")
    G, GS = S.get_spacegroup_irreps_from_primitive_symmetry, S.get_spacegroup_spinor_irreps_from_primitive_symmetry
    for ki in (h % 8, (h + 3) % 8) if tier == "quick" else range(8):
        k = KS[ki]
        kf = kfloat(k)
        li = little_indices(ops, k)
        name = f"{'uni' if mag else 'hall'}={h} k={fmt(k)}"
        u = [i for i in li if not (mag and ops.tr[i])]
        Ru, tu = Rf[u], tf[u]
        tab = group_table(Ru)
        coset = np.exp(-2j * np.pi * (np.einsum("nji,j->ni", Ru, kf) - kf) @ tu.T)
        if mag and len(u) == 1:
            continue

        def model(o):
            order = [int(x) for x in o]
            return Model(ops.subset(order), k) if sorted(order) == li else None

        if mag:
            if len(u) < len(li):
                f = coset * np.asarray(GS(L, Rf, tf, ops.tr, kf)[2])[np.ix_([li.index(i) for i in u], [li.index(i) for i in u])]

                def okco(o):
                    m = model(o[5])
                    return check_corep_set(o[0], o[1], o[2], m, o[4]) if m else "wrong little group"

                relative(rec, name, tab, f, lambda **kw: GS(L, Rf, tf, ops.tr, kf, **kw0, **kw), okco)
            continue

        def ok(o):
            m = model(o[1])
            return check_complete(o[0], m.table, m.phase_complex(), m.n) if m else "wrong little group"

        def okspin(o):
            m = model(o[3])
            return check_complete(o[0], m.table, o[1] * m.phase_complex(), m.n) if m else "wrong little group"

        relative(rec, name, tab, coset, lambda **kw: G(Rf, tf, kf, **kw0, **kw), ok)
        relative(rec, name + " spin", tab, coset * np.asarray(GS(L, Rf, tf, kpoint=kf)[1]), lambda **kw: GS(L, Rf, tf, kpoint=kf, **kw0, **kw), okspin)
    # crystals: at k = 0, where the factor system does not depend on the cell
    conv = msg_conventional(h) if mag else hall_conventional(h)
    if tier == "quick" and (len(conv) > 48 or h % 3):
        return
    cell = (magnetic_structure if mag else orbit_structure)(conv)
    cen = centring_vectors(conv)
    found = (spglib.get_magnetic_symmetry_dataset if mag else spglib.get_symmetry_dataset)(cell, symprec=1e-5)
    if found is None or match_ops(conv, found["rotations"], found["translations"], found["time_reversals"] if mag else None) is None:
        rec.count("skipped_no_dataset")
        return
    tr = np.asarray(found["time_reversals"]) if mag else np.zeros(len(found["rotations"]))
    Ru = np.array(list({tuple(r.ravel()): r for r, x in zip(found["rotations"], tr) if not x}.values()))
    if mag and not tr.any():
        return
    tab = group_table(Ru)
    zero = (F(0),) * 3
    f = S.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(cell[0], Ru)[1]

    def crystal_model(R, t, tr, mp):
        ops = match_ops(conv, R, t, tr)
        return Model(ops.subset([int(x) for x in mp]), zero) if ops is not None and sorted(map(int, mp)) == list(range(len(conv))) else None

    def ok(o):
        m = crystal_model(o[1], o[2], None, o[3])
        return check_complete(o[0], m.table, m.phase_complex(), m.n, quot=len(cen)) if m else "wrong operations"

    def okspin(o):
        m = crystal_model(o[3], o[4], None, o[5])
        return check_complete(o[0], m.table, o[1], m.n, quot=len(cen)) if m else "wrong operations"

    def okco(o):
        m = crystal_model(o[4], o[5], o[6], o[7])
        return check_corep_set(o[0], None, o[1], m, o[3], quot=len(cen)) if m else "wrong operations"

    name = f"crystal {'uni' if mag else 'hall'}={h}"
    if mag:
        relative(rec, name, tab, f, lambda **kw: S.get_spacegroup_spinor_irreps(*cell, kpoint=np.zeros(3), **kw0, **kw), okco)
    else:
        relative(rec, name, tab, np.ones(tab.shape), lambda **kw: S.get_spacegroup_irreps(*cell, np.zeros(3), **kw0, **kw), ok)
        relative(rec, name + " spin", tab, f, lambda **kw: S.get_spacegroup_spinor_irreps(*cell, kpoint=np.zeros(3), **kw0, **kw), okspin)


def check(task, rec):
    if task[0].startswith("rtol"):
        memoise_symmetry_search()
        rtol_reaches(task, rec)
        return
    memoise_symmetry_search()
    import spgrep as S

    kind, h, tier = task
    q = tier == "quick"
    ops = hall_std_primitive(h) if kind == "sg" else msg_std_primitive(h)
    Rf, tf = ops.floats()
    L = lattice_for(Rf, "generic")
    nt = noise(len(ops), 1.0)
    if kind == "sg":
        conv = hall_conventional(h)
        cell = orbit_structure(conv)
        cen = centring_vectors(conv)
        cR = conv
    for ki in range(len(KS)) if not q else ((h % 8, (h + 3) % 8, (h + 5) % 8) if kind == "sg" else ((h + h // 8) % 8, (h + 3 * (h // 8) + 4) % 8)):
        k = KS[ki]
        for ci in range(len(CASES)) if not q else sorted({(h + ki) % 9, (h // 3 + 4 + 2 * ki) % 9, (h // 5 + 7 + 5 * ki) % 9}):
            cname, eps, inside, kw, tn = CASES[ci]
            for di in range(len(DIRS)) if not q else ((h + ci + ki) % 5,):
                d = DIRS[di]
                if inside and max(abs(x) for r in ops.R for x in mat_vec(r.T, d)) > 6:
                    continue
                k2 = tuple(a + eps * b for a, b in zip(k, d))
                exact = k if inside else k2
                tol = 1e-6 + 1000 * (float(eps) if inside else 0.0) + 1000 * tn
                kf, t = kfloat(k2), tf + tn * nt
                li = little_indices(ops, exact)
                changed = not inside and li != little_indices(ops, k) or inside and li != little_indices(ops, k2)
                method = ("Neto", "random")[(h // 2 + ki + ci) % 2]
                name = f"{'hall' if kind == 'sg' else 'uni'}={h} k={fmt(k)} {cname} {d} method={method}"

                def model(o, where, ext=None):
                    order = [int(x) for x in o]
                    want = li if ext is None else lattice_little(ext, exact, cen)
                    if sorted(order) != want:
                        rec.violation(where, f"little group {order}, exact {want}")
                        return None
                    return Model((ext or ops).subset(order), exact)

                if kind == "msg":
                    out = run(rec, name, lambda: S.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, Rf, t, ops.tr, kf, method=method, **kw))
                    m = out and model(out[5], name)
                    if m:
                        msg = check_lift(L, m.ops.R, m.ops.tr, out[3], out[2], m.table) or check_corep_set(out[0], out[1], out[2], m, out[4], tol=tol)
                        verdict(rec, name, msg, m.n, changed)
                    continue
                out = run(rec, name, lambda: S.get_spacegroup_irreps_from_primitive_symmetry(Rf, t, kf, method=method, **kw))
                m = out and model(out[1], name)
                if m:
                    verdict(rec, name, check_complete(out[0], m.table, m.phase_complex(), m.n, tol=tol), m.n, changed)
                if all((2 * x).denominator == 1 for x in exact):
                    nm = name + " real"
                    out = run(rec, nm, lambda: S.get_spacegroup_irreps_from_primitive_symmetry(Rf, t, kf, real=True, method=method, **kw))
                    m = out and model(out[1], nm)
                    if m:
                        verdict(rec, nm, real_check(out[0], m.table, m.phase_complex(), m.n, tol), m.n, changed)
                nm = name + " spin"
                out = run(rec, nm, lambda: S.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, Rf, t, kpoint=kf, method=method, **kw))
                m = out and model(out[3], nm)
                if m:
                    msg = check_lift(L, m.ops.R, None, out[2], out[1], m.table) or check_complete(out[0], m.table, out[1] * m.phase_complex(), m.n, tol=tol)
                    verdict(rec, nm, msg, m.n, changed)
                if tn or (q and len(conv) > 48 and h % 5):
                    continue
                nm = name + " crystal"
                out = run(rec, nm, lambda: S.get_spacegroup_irreps(*cell, kf, method=method, **kw))
                if out is not None:
                    ext = match_ops(cR, out[1], out[2])
                    m = ext and model(out[3], nm, ext)
                    if m:
                        verdict(rec, nm, check_complete(out[0], m.table, m.phase_complex(), m.n, tol=tol, quot=len(cen)), m.n, changed)
                nm = name + " crystal spin"
                out = run(rec, nm, lambda: S.get_spacegroup_spinor_irreps(*cell, kpoint=kf, method=method, **kw))
                if out is not None:
                    ext = match_ops(cR, out[3], out[4])
                    m = ext and model(out[5], nm, ext)
                    if m:
                        msg = check_complete(out[0], m.table, out[1] * m.phase_complex(), m.n, tol=tol, quot=len(cen))
                        verdict(rec, nm, msg, m.n, changed)
