"""C27: the random numbers drawn inside the library never decide whether a result is correct."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc.exact import Model, Ops, centring_vectors, hall_conventional, kfloat, little_indices, msg_conventional, num_projective_irreps
from mc.gen import hall_std_primitive, lattice_for, magnetic_pointgroups, msg_std_primitive
from mc.groups import NUM_GROUPS, groups
from mc.props.c02 import match_ops
from mc.props.c11 import dsum, mix
from mc.props.c24 import spin_phase
from mc.props.c26 import factor_systems
from mc.reps import check_complete, product_residual, unitary_residual
from mc.spin import check_corep_set, check_lift
from mc.structures import lattice_little, magnetic_structure, memoise_symmetry_search, orbit_structure
from mc.util import call, classes, fmt, group_table, num_classes

RULE = (
    "one case = (call, sequence of values delivered by the library's random generator); the result must be complete and correct, or a warning or an error "
    "must be given; after fewer degenerate draws than the allowed number of attempts it must be complete"
)
CHUNK = 1
REAL = np.random.default_rng
Z = (0, 0, 0)


class Script:
    """Stands in for numpy.random.default_rng: generators seeded with nothing or 0 first deliver the scripted values."""

    def __init__(self, draws):
        self.draws, self.used = draws, 0

    def __call__(self, seed=None, *a, **k):
        real = REAL(seed, *a, **k)
        return real if seed not in (None, 0) else Generator(self, real)

    def __enter__(self):
        self.saved = np.random.default_rng
        np.random.default_rng = self
        return self

    def __exit__(self, *a):
        np.random.default_rng = self.saved


class Generator:
    def __init__(self, script, real):
        self.script, self.real, self.n = script, real, 0

    def random(self, size=None, *a, **k):
        x = self.real.random(size, *a, **k)
        i, self.n = self.n, self.n + 1
        if i < len(self.script.draws):
            d = self.script.draws[i]
            d = d(np.shape(x)) if callable(d) else d
            if np.shape(d) == np.shape(x):
                self.script.used += 1
                return np.array(d, dtype=float)
        return x

    def __getattr__(self, name):
        return getattr(self.real, name)


def single(s):
    x = np.zeros(s)
    x.flat[0] = 1
    return x


def lower(s):
    return np.tril(np.ones(s), -1) if len(s) == 2 else np.ones(s)


BAD = {"zero": np.zeros, "tiny": lambda s: np.full(s, 1e-12), "one": np.ones, "single": single, "unit": lambda s: np.eye(*s) if len(s) == 2 else np.ones(s), "lower": lower}


def run(rec, name, draws, must, fn):
    """(result, controlled) or None; a warning or error is a violation if ``must``."""
    with warnings.catch_warnings(record=True) as w, Script(draws) as s, np.errstate(all="warn"):
        warnings.simplefilter("always")
        try:
            out = fn()
        except Exception as e:
            w.append(None)
            msg = f"raised {e!r}"[:200]
        else:
            msg = next((str(x.message)[:200] for x in w if issubclass(x.category, (UserWarning, RuntimeWarning))), None)
    rec.model(1, max(1, s.used))
    if s.used:
        rec.count("nontrivial")
    if msg:
        if must:
            rec.violation(name, f"good random numbers were left to try: {msg}")
        else:
            rec.count("refused_with_warning_or_error")
        return None
    return out


def patterns(n, small=729):
    """Every assignment of up to three values to n copies (up to renaming), or every coincidence of two, and of two pairs."""
    if 3**n <= small:
        seen = set()
        for p in itertools.product(range(3), repeat=n):
            seen.add(p)
        yield from sorted(seen)
        return
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(2, n + 2))
        p[j] = p[i]
        yield tuple(p)
    for i in range(n):
        yield tuple(int(j == i) for j in range(n))
        yield tuple(int(j >= i) for j in range(n))
    yield (1,) * n


def copies(rep):
    """Orthonormal bases of irreducible subspaces, from a fixed generic Hermitian element of the commutant."""
    n, d, _ = rep.shape
    for seed in range(12345, 12365):
        rng = REAL(seed)
        h = rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d))
        h = np.einsum("nij,jk,nlk->il", rep, h + h.conj().T, np.conj(rep), optimize="greedy") / n
        e, v = np.linalg.eigh(h)
        cut = [0] + [i for i in range(1, d) if e[i] - e[i - 1] > 1e-6 * (1 + abs(e[i]))] + [d]
        qs = [v[:, a:b] for a, b in zip(cut, cut[1:])]
        chi = [np.einsum("ia,nij,ja->n", q.conj(), rep, q, optimize="greedy") for q in qs]
        if all(abs((np.abs(c) ** 2).sum() - n) < 0.1 for c in chi):
            return qs
    raise RuntimeError("no splitting into irreducible subspaces found")


def attempt(h):
    return [np.real(h) / 2, np.imag(h) / 2]


def orientation(qs, fn):
    """Draws reach the averaged matrix as they are or complex conjugated: the one for which distinct eigenvalues suffice."""
    h = sum(x * q @ q.conj().T for x, q in enumerate(qs, 1))
    for turn in (np.array, np.conj):
        with warnings.catch_warnings(record=True) as w, Script(attempt(turn(h))) as s:
            warnings.simplefilter("always")
            try:
                fn()
            except Exception:
                continue
            if s.used and not any(issubclass(x.category, UserWarning) for x in w):
                return turn
    return None


def spectrum_cases(qs, tier):
    """(name, Hermitian matrix) with prescribed coincidences of eigenvalues."""
    for p in patterns(len(qs), 729 if tier == "thorough" else 243):
        yield f"levels={''.join(map(str, p)) if len(p) < 9 else p}", sum(x * q @ q.conj().T for x, q in zip(p, qs))
    base = list(range(1, len(qs) + 1))
    for gap in (1e-12, 1e-9, 1e-7, 3e-6, 9e-6, 1.1e-5, 3e-5, 1e-3):
        for i in range(min(3, len(qs) - 1)):
            lv = [float(x) for x in base]
            lv[i + 1] = lv[i] * (1 + gap)
            yield f"gap={gap:g} at {i}", sum(x * q @ q.conj().T for x, q in zip(lv, qs))
    for scale in (1e-9, 1e-6, 1e6):
        yield f"scale={scale:g}", sum(x * scale * q @ q.conj().T for x, q in zip(base, qs))


def bounds(tier):
    q = tier == "quick"
    return (f"regular representations of {'32 crystal classes' if q else '122 rotation sets'} (ordinary and spin) and of all groups of order <= {12 if q else 20} with sign cocycles, and sums of their irreps: one attempt with every assignment of three "
            f"eigenvalues to the irreducible subspaces (up to {5 if q else 6} of them; above, every coincidence of two and every two-level one), gaps 1e-12 to 1e-3, scales, then ordinary draws, or the same for all "
            f"attempts; intertwiners after 0 to 4 attempts orthogonal to the solution or of size 1e-12 to 1e-6; all public enumerations of 122 rotation sets, 530 Hall settings, magnetic groups and crystals x {len(BAD)} degenerate draws x "
            "(1 attempt of 4, 4 of 20, all)")


def tasks(tier):
    return ([("reg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("abs", n, i, tier) for n in range(12 if tier == "quick" else 20, 0, -1) for i in range(NUM_GROUPS[n - 1])]
            + [("sg", h, None, tier) for h in range(530, 0, -1)] + [("msg", u, None, tier) for u in range(1651, 0, -1) if tier == "thorough" or u % 4 == 0]
            + [("crystal", h, None, tier) for h in range(530, 0, -1) if tier == "thorough" or h % 3 == 0]
            + [("magnetic crystal", u, None, tier) for u in range(1651, 0, -1) if tier == "thorough" or u % 12 == 1])


def first_of_class():
    """One rotation set for each of the 32 geometric crystal classes."""
    out = {}
    for h, R in classes():
        out.setdefault(tuple(sorted((int(np.trace(r)), int(np.rint(np.linalg.det(r)))) for r in R)), h)
    return set(out.values())


def regular(t, f):
    n = len(t)
    a = np.arange(n)
    reg = np.zeros((n, n, n), dtype=complex)
    reg[a[:, None], t, a[None, :]] = f
    return reg


def judge(rec, name, out, t, f, want):
    msg = check_complete(out, t, f, len(t), want)
    if msg:
        rec.violation(name, msg)
    else:
        rec.sample(f"{name}: dimensions {sorted(x.shape[1] for x in out)}")


def decomposing(rec, base, t, f, want, tier):
    from spgrep.irreps import decompose_representation as D, enumerate_unitary_irreps_from_regular_representation as E
    from spgrep.representation import get_intertwiner as I

    reg = regular(t, f)
    qs = copies(reg)
    turn = orientation(qs, lambda: E(reg, max_num_random_generations=1))
    if turn is None:
        rec.count("draws_without_aimed_effect")
    for i, (nm, h) in enumerate(spectrum_cases(qs, tier)):
        a = attempt((turn or np.array)(h))
        out = run(rec, f"{base} regular {nm} once", a, True, lambda: E(reg))
        if out is not None:
            judge(rec, f"{base} regular {nm} once", out, t, f, want)
        if tier == "quick" and len(t) > 16 and i % 4:
            continue
        out = run(rec, f"{base} regular {nm} always", a * 40, False, lambda: E(reg))
        if out is not None:
            judge(rec, f"{base} regular {nm} always", out, t, f, want)
    for b, draw in BAD.items():
        out = run(rec, f"{base} regular draws {b}", [draw] * 40, False, lambda: E(reg))
        if out is not None:
            judge(rec, f"{base} regular draws {b}", out, t, f, want)
    for m in (0, 1):
        out = run(rec, f"{base} regular {m} attempts", [np.zeros] * 2, False, lambda: E(reg, max_num_random_generations=m))
        if out is not None:
            judge(rec, f"{base} regular {m} attempts", out, t, f, want)
    irreps = call(rec, base, E, reg)
    if irreps is None or check_complete(irreps, t, f, len(t), want):
        return  # C12, C24, C26
    # sums of irreps with repetitions
    sets = [(irreps, [1] * len(irreps))] if len(irreps) <= 6 else []
    sets += [(irreps[-2:], [2, 1][: len(irreps[-2:])]), (irreps[-1:], [3])]
    for parts, mult in sets:
        rep = dsum(*[x for x, m in zip(parts, mult) for _ in range(m)])
        u = mix(rep.shape[1])
        rep = np.einsum("ji,njk,kl->nil", np.conj(u), rep, u)
        qs = copies(rep)
        turn = orientation(qs, lambda: D(rep, max_num_random_generations=1)) or np.array
        for nm, h in spectrum_cases(qs, tier):
            for many in (1, 40):
                name = f"{base} sum of dimensions {[x.shape[1] for x in parts]} x {mult} {nm} {'once' if many == 1 else 'always'}"
                out = run(rec, name, attempt(turn(h)) * many, many == 1, lambda: D(rep))
                if out is None:
                    continue
                g = [[abs(np.einsum("nii,njj->", np.conj(a), b)) / len(t) for b in out] for a in parts]
                if len(out) != len(parts) or not np.all(np.rint(g).sum(0) == 1) or not np.all(np.rint(g).sum(1) == 1):
                    rec.violation(name, f"{len(out)} irreps returned for {len(parts)} inequivalent ones")
                elif any(not unitary_residual(x) < 1e-6 or not product_residual(x, t, f) < 1e-6 for x in out):
                    rec.violation(name, "a returned irrep is not a unitary representation")
    # intertwiners: rep1 M = M rep2 with rep2 = W^-1 rep1 W has the solutions M ~ W
    for a, A in enumerate(irreps):
        d = A.shape[1]
        W = mix(d)
        B = np.einsum("ji,njk,kl->nil", np.conj(W), A, W)
        x = np.outer(np.arange(1, d + 1), np.ones(d)) + 1j * np.eye(d)
        orth = x - np.vdot(W, x) / d * W
        for nm, m in [("orthogonal", orth), ("zero", 0 * W)] + [(f"size {s:g}", s * W) for s in (1e-12, 1e-10, 1e-8, 1e-7, 1e-6)] + [("identity", np.eye(d))]:
            one = [np.real(m) + 0 * np.eye(d), np.imag(m) + 0 * np.eye(d)]
            for j in (1, 40):
                name = f"{base} intertwiner of irrep {a} after {nm} {'once' if j == 1 else 'always'}"
                out = run(rec, name, one * j, j == 1, lambda: I(A, B))
                if out is None:
                    continue
                out = np.asarray(out)
                r = np.abs(np.einsum("nij,jk->nik", A, out) - np.einsum("ij,njk->nik", out, B)).max()
                if out.shape != (d, d) or not r < 1e-6 or not np.abs(out @ out.conj().T - np.eye(d)).max() < 1e-6:
                    rec.violation(name, f"not a unitary intertwiner (residual {r:.3g})")


MODES = (("1 of 4", 2, {}, True), ("4 of 20", 8, {"max_num_random_generations": 20}, True), ("all", 400, {}, False))


def entries(rec, base, i, tier, fn, ok):
    kinds = list(BAD)
    for j, (mode, many, kw, must) in enumerate(MODES):
        for b in kinds if tier == "thorough" else (kinds[(i + j) % len(kinds)], "zero"):
            name = f"{base} draws={b} in {mode}"
            out = run(rec, name, [BAD[b]] * many, must, lambda: fn(**kw))
            if out is None:
                continue
            msg = ok(out)
            if msg:
                rec.violation(name, msg)
            else:
                rec.sample(name)


def real_ok(reps, t, f):
    for a, x in enumerate(reps):
        if np.iscomplexobj(x) or not np.all(np.isfinite(x)):
            return f"real irrep {a} has complex or non-finite entries"
        if not unitary_residual(x) < 1e-6 or not product_residual(x, t, f) < 1e-6:
            return f"real irrep {a} is not an orthogonal representation"
    return None if reps else "no irreps returned"


def crystals(kind, h, tier, rec):
    """The same through the functions that take a crystal."""
    from fractions import Fraction as F

    import spglib
    from spgrep import get_spacegroup_irreps as G, get_spacegroup_spinor_irreps as GS

    memoise_symmetry_search()
    mag = kind == "magnetic crystal"
    conv = msg_conventional(h) if mag else hall_conventional(h)
    if tier == "quick" and len(conv) > 96:
        return
    cell = (magnetic_structure if mag else orbit_structure)(conv, "axes")
    cen = centring_vectors(conv)
    found = (spglib.get_magnetic_symmetry_dataset if mag else spglib.get_symmetry_dataset)(cell, symprec=1e-5)
    if found is None or match_ops(conv, found["rotations"], found["translations"], found["time_reversals"] if mag else None) is None:
        rec.count("skipped_no_dataset")
        return
    ks = [(F(1, 2), F(1, 2), F(1, 2)), (F(1, 2), F(0), F(0)), (F(1, 3), F(1, 3), F(0)), (F(0),) * 3]
    for i, k in enumerate(ks if tier == "thorough" else (ks[(h + h // 4) % 4],)):
        method = ("Neto", "random")[h // 3 % 3 > 0]

        def model(R, t, tr, mp):
            ops = match_ops(conv, R, t, tr)
            if ops is None or sorted(map(int, mp)) != lattice_little(ops, k, cen):
                return None
            return Model(ops.subset([int(x) for x in mp]), k)

        def ok(o):
            m = model(o[1], o[2], None, o[3])
            return "wrong operations or little group" if m is None else check_complete(o[0], m.table, m.phase_complex(), m.n, quot=len(cen))

        def okspin(o):
            m = model(o[3], o[4], None, o[5])
            return "wrong operations or little group" if m is None else check_complete(o[0], m.table, o[1] * m.phase_complex(), m.n, quot=len(cen))

        def okco(o):
            m = model(o[4], o[5], o[6], o[7])
            return "wrong operations or little group" if m is None else check_corep_set(o[0], None, o[1], m, o[3], quot=len(cen))

        name = f"crystal {'uni' if mag else 'hall'}={h} k={fmt(k)} method={method}"
        if mag:
            entries(rec, name, h + i, tier, lambda **kw: GS(*cell, kpoint=kfloat(k), method=method, **kw), okco)
            continue
        entries(rec, name, h + i, tier, lambda **kw: G(*cell, kfloat(k), method=method, **kw), ok)
        entries(rec, name + " spin", h + i + 1, tier, lambda **kw: GS(*cell, kpoint=kfloat(k), method=method, **kw), okspin)


def check(task, rec):
    from spgrep import (
        get_crystallographic_pointgroup_irreps_from_symmetry as P,
        get_crystallographic_pointgroup_spinor_irreps_from_symmetry as PS,
        get_spacegroup_irreps_from_primitive_symmetry as G,
        get_spacegroup_spinor_irreps_from_primitive_symmetry as GS,
    )
    from fractions import Fraction as F

    kind, h, R, tier = task
    if kind == "reg":
        R = np.array(R)
        t = group_table(R)
        n = len(R)
        base = f"pointgroup of hall={h}"
        for fname, ph in (("ordinary", 0 * t), ("spin", spin_phase(R, t))) if tier == "thorough" or h in first_of_class() else ():
            if n <= 24 or tier == "thorough" or fname == "ordinary":
                decomposing(rec, f"{base} {fname}", t, np.exp(2j * np.pi * ph / 120), num_projective_irreps(t, ph, 120), tier)
        one = np.ones((n, n))
        L = lattice_for(R, "generic")
        for method in ("Neto", "random"):
            entries(rec, f"{base} method={method}", h, tier, lambda **kw: P(R, method=method, **kw), lambda o: check_complete(o, t, one, n, num_classes(t)))
            entries(rec, f"{base} method={method} real", h + 1, tier, lambda **kw: P(R, method=method, real=True, **kw), lambda o: real_ok(o, t, one))
            entries(rec, f"{base} method={method} spin", h + 2, tier, lambda **kw: PS(L, R, method=method, **kw), lambda o: check_lift(L, R, None, o[2], o[1], t) or check_complete(o[0], t, o[1], n))
    elif kind == "abs":
        t = groups(h)[R]
        for fname, ph in factor_systems(t, "quick")[: 3 if tier == "quick" else 6]:
            decomposing(rec, f"group {h}.{R} factor={fname}", t, np.exp(2j * np.pi * ph / 120), num_projective_irreps(t, ph, 120), tier)
    elif kind == "sg":
        ops = hall_std_primitive(h)
        Rf, tf = ops.floats()
        L = lattice_for(Rf, "generic")
        ks = [(F(1, 2), F(1, 2), F(1, 2)), (F(1, 2), F(0), F(0)), (F(1, 3), F(1, 3), F(0)), (F(0),) * 3]
        for i, k in enumerate(ks if tier == "thorough" else (ks[h % 4], ks[(h // 4 + h + 1) % 4])):
            method = ("Neto", "random")[(h // 2 + i) % 2]

            def sub(o):
                order = [int(x) for x in o]
                return None if sorted(order) != little_indices(ops, k) else Model(ops.subset(order), k)

            def ok(o):
                m = sub(o[1])
                return "wrong little group" if m is None else check_complete(o[0], m.table, m.phase_complex(), m.n)

            def okreal(o):
                m = sub(o[1])
                return "wrong little group" if m is None else real_ok(o[0], m.table, m.phase_complex())

            def okspin(o):
                m = sub(o[3])
                return "wrong little group" if m is None else check_complete(o[0], m.table, o[1] * m.phase_complex(), m.n)

            name = f"hall={h} k={fmt(k)} method={method}"
            entries(rec, name, h + i, tier, lambda **kw: G(Rf, tf, kfloat(k), method=method, **kw), ok)
            if all((2 * x).denominator == 1 for x in k):
                entries(rec, name + " real", h + i + 1, tier, lambda **kw: G(Rf, tf, kfloat(k), method=method, real=True, **kw), okreal)
            entries(rec, name + " spin", h + i + 2, tier, lambda **kw: GS(lattice=L, rotations=Rf, translations=tf, kpoint=kfloat(k), method=method, **kw), okspin)
    elif "crystal" in kind:
        crystals(kind, h, tier, rec)
    else:
        ops = msg_std_primitive(h)
        Rf, tf = ops.floats()
        L = lattice_for(Rf, "generic")
        ks = [(F(1, 2), F(1, 2), F(1, 2)), (F(1, 2), F(0), F(0)), (F(1, 3), F(1, 3), F(0)), (F(0),) * 3]
        for i, k in enumerate(ks if tier == "thorough" else ks[h // 4 % 4 :][:1]):
            method = ("Neto", "random")[(h // 2 + i) % 2]

            def okco(o):
                order = [int(x) for x in o[5]]
                if sorted(order) != little_indices(ops, k):
                    return "wrong little group"
                return check_corep_set(o[0], o[1], o[2], Model(ops.subset(order), k), o[4])

            entries(rec, f"uni={h} k={fmt(k)} method={method}", h + i, tier,
                    lambda **kw: GS(lattice=L, rotations=Rf, translations=tf, time_reversals=ops.tr, kpoint=kfloat(k), method=method, **kw), okco)
