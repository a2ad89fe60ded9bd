"""C28: how the caller stores the arrays (layout, integer width, byte order, read-only, shared buffer) does not matter."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc import calls
from mc.exact import hall_conventional, kfloat
from mc.gen import hall_std_primitive, lattice_for, msg_std_primitive
from mc.structures import orbit_structure
from mc.util import classes, fmt
from fractions import Fraction as F

RULE = (
    "one case = one call with one or all of its arrays stored in another way; the outcome must be that of ordinary C-ordered int64/float64 arrays "
    "(representations compared by characters, bases and tensors by the space they span), and the arrays must be unchanged"
)
CHUNK = 4


class Sub(np.ndarray):
    pass


def readonly(x):
    y = x.copy()
    y.setflags(write=False)
    return y


def strided(x):
    y = np.full(tuple(2 * s for s in x.shape), 77, x.dtype)
    v = y[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def ints(x):
    return x.astype(int) if x.dtype.kind == "f" and x.size and np.all(x == np.rint(x)) else None


LAYOUTS = {
    "readonly": readonly,
    "fortran": np.asfortranarray,
    "strided": strided,
    "reversed": lambda x: x[::-1].copy()[::-1],
    "transposed": lambda x: np.ascontiguousarray(x.T).T,
    "int32": lambda x: x.astype(np.int32) if x.dtype.kind == "i" else None,
    "int16": lambda x: x.astype(np.int16) if x.dtype.kind == "i" else None,
    "float": lambda x: x.astype(float) if x.dtype.kind == "i" else None,
    "integers": ints,
    "big-endian": lambda x: x.astype(x.dtype.newbyteorder(">")) if x.dtype.kind in "ifc" else None,
    "real numbers": lambda x: x.real.copy() if x.dtype.kind == "c" and not np.any(x.imag) else None,
    "real integers": lambda x: x.real.astype(int) if x.dtype.kind == "c" and not np.any(x.imag) and np.all(x.real == np.rint(x.real)) else None,
    "subclass": lambda x: x.view(Sub),
    "flags as integers": lambda x: x.astype(int) if x.dtype.kind == "b" else None,
}


def pack(xs):
    """The float arrays among xs as views into one buffer."""
    fl = [x for x in xs if x is not None and x.dtype == float]
    if len(fl) < 2:
        return None
    buf = np.concatenate([x.ravel() for x in fl])
    out, o = [], 0
    for x in xs:
        if x is not None and x.dtype == float:
            out.append(buf[o : o + x.size].reshape(x.shape))
            o += x.size
        else:
            out.append(x)
    return out


def slots(a, k):
    return [(i, x) for i, x in enumerate(a) if isinstance(x, np.ndarray)] + [(q, x) for q, x in k.items() if isinstance(x, np.ndarray)]


def place(a, k, vals):
    a, k = list(a), dict(k)
    for i, v in vals.items():
        if isinstance(i, int):
            a[i] = v
        else:
            k[i] = v
    return tuple(a), k


def span(vs):
    m = np.array([np.asarray(v).ravel() for v in vs])
    if not len(m):
        return np.zeros((0, 0))
    u, s, vh = np.linalg.svd(m, full_matrices=False)
    vh = vh[s > 1e-8]
    return np.conj(vh.T) @ vh


def summary(x, kind):
    """What is compared: arrays as they are; representations by characters (in any order); bases and tensors by their span."""
    if kind == "span":
        if isinstance(x, list):
            return [len(x), span([v.reshape(-1) if v.ndim > 2 else v for v in x]) if not x or x[0].ndim != 2 else span([r for v in x for r in v])]
        return x
    if isinstance(x, tuple):
        return tuple(summary(y, kind) for y in x)
    if isinstance(x, list) and x and all(isinstance(y, np.ndarray) and y.ndim == 3 for y in x):
        c = [np.einsum("nii->n", np.asarray(y)) for y in x]
        return {"characters": sorted(([int(y.shape[1])] + [[round(float(z.real), 5) + 0.0, round(float(z.imag), 5) + 0.0] for z in v] for y, v in zip(x, c)))}
    if isinstance(x, list) and kind == "irreps" and all(isinstance(y, (int, np.integer)) for y in x):
        return sorted(int(y) for y in x)
    return x


def near(a, b):
    """None if equal within 1e-6."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a["characters"]) != len(b["characters"]):
            return "other number of representations"
        left = [np.array(z[1:]) for z in b["characters"]]
        for z in a["characters"]:
            v = np.array(z[1:])
            j = next((j for j, w in enumerate(left) if w.shape == v.shape and np.abs(w - v).max() < 1e-4), None)
            if j is None:
                return f"no representation with the character of one of dimension {z[0]}"
            left.pop(j)
        return None
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)) or len(a) != len(b):
            return "other structure of the result"
        return next((m for m in (near(x, y) for x, y in zip(a, b)) if m), None)
    if a is None or b is None or isinstance(a, str):
        return None if a == b else f"{b} instead of {a}"
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"shape {y.shape} instead of {x.shape}"
    if x.size and not np.abs(x.astype(complex) - y.astype(complex)).max() < 1e-6:
        return "other values"
    return None


def outcome(fn, a, k, kind):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", summary(fn(*a, **k), kind)
        except Exception as e:
            return "raise", f"{type(e).__name__}: {e}"[:150]


def vary(rec, base, fn, a, k, kind, pick=None, tier="quick", index=()):
    """All single layouts of single arguments and of all arguments at once; pick: residue class of the cases made; index: tables of indices, integers by nature."""
    a = tuple(x.copy() if isinstance(x, np.ndarray) else x for x in a)
    k = {q: x.copy() if isinstance(x, np.ndarray) else x for q, x in k.items()}
    sl = slots(a, k)
    ref = outcome(fn, *place(a, k, {i: x.copy() for i, x in sl}), kind)
    rec.model(1, 1)
    cases = []
    for name, f in LAYOUTS.items():
        new = {i: f(x) for i, x in sl}
        new = {i: y for i, y in new.items() if y is not None and not (i in index and name == "float")}
        cases += [(f"argument {i} {name}", {i: y}) for i, y in new.items()]
        if len(new) > 1:
            cases.append((f"all arguments {name}", new))
    p = pack([x for _, x in sl])
    if p:
        cases.append(("arguments in one buffer", {i: y for (i, _), y in zip(sl, p)}))
    if tier == "thorough":
        for (n1, f1), (n2, f2) in itertools.product(LAYOUTS.items(), repeat=2):
            for (i, x), (j, y) in itertools.combinations(sl, 2):
                u, v = f1(x), f2(y)
                if n1 != n2 and u is not None and v is not None:
                    cases.append((f"argument {i} {n1}, argument {j} {n2}", {i: u, j: v}))
    for c, (name, new) in enumerate(cases):
        if pick is not None and c % pick[1] != pick[0] % pick[1]:
            continue
        keep = {i: np.array(y) for i, y in new.items()}
        got = outcome(fn, *place(a, k, new), kind)
        rec.model(1, 1)
        nm = f"{base} {name}"
        if got[0] != ref[0]:
            rec.violation(nm, f"{got} but ordinary arrays give {ref[0]}"[:250])
            continue
        msg = near(ref[1], got[1]) if ref[0] == "ok" else None
        if msg:
            rec.violation(nm, msg)
        elif any(not np.array_equal(keep[i], new[i]) for i in new):
            rec.violation(nm, "an argument was changed")
        else:
            rec.count("nontrivial")
            rec.sample(nm)


KINDS = {"project_to_irrep": "span", "get_symmetry_adapted_tensors": "span", "apply_intrinsic_symmetry": "span"}


def bounds(tier):
    q = tier == "quick"
    return (f"{len(calls.build())} calls of all public functions, every array argument x {len(LAYOUTS)} ways of storing it, all arguments at once, and in one shared buffer{'' if q else ', pairs of arguments'}; "
            f"122 rotation sets, 530 Hall settings, crystals of 530 settings, {'a third of ' if q else ''}1651 magnetic groups x enumerations ({'a seventh to a third' if q else 'all'} of the same cases)")


def tasks(tier):
    return ([("calls", n, tier) for n in calls.build()] + [("pg", h, tier) for h, _ in classes()][::-1] + [("sg", h, tier) for h in range(530, 0, -1)]
            + [("msg", u, tier) for u in range(1651, 0, -1) if tier == "thorough" or u % 3 == 0])


KS = ((F(0),) * 3, (F(1, 2),) * 3, (F(1, 2), F(0), F(0)), (F(1, 3), F(1, 3), F(0)), (F(0), F(0), F(1, 5)))


def check(task, rec):
    import spgrep as S
    from spgrep import group, irreps, pointgroup, representation, spinor, tensor, transform

    kind, h, tier = task
    q = tier == "quick"
    if kind == "calls":
        f, a, k = calls.build()[h]
        vary(rec, h, calls.resolve(f), a, k, KINDS.get(f[1], "irreps"), None, tier)
        return
    if kind == "pg":
        R = np.array(dict(classes())[h])
        L = lattice_for(R, "generic")
        b = f"pointgroup of hall={h} "
        vary(rec, b + "chain", pointgroup.get_pointgroup_chain_generators, (R,), {}, "exact")
        vary(rec, b + "table", group.get_cayley_table, (R,), {}, "exact")
        for m in ("Neto", "random"):
            vary(rec, b + m, S.get_crystallographic_pointgroup_irreps_from_symmetry, (R,), {"method": m}, "irreps", (h, 3) if q else None)
            vary(rec, b + m + " real", S.get_crystallographic_pointgroup_irreps_from_symmetry, (R,), {"method": m, "real": True}, "irreps", (h + 1, 3) if q else None)
        vary(rec, b + "spin", S.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, (L, R), {}, "irreps", (h + 2, 3) if q else None)
        vary(rec, b + "spin factor", spinor.get_spinor_factor_system, (L, R), {}, "exact")
        C = np.linalg.inv(L.T)
        rep = np.einsum("ab,nbc,cd->nad", L.T, R, C)
        vary(rec, b + "tensors", tensor.get_symmetry_adapted_tensors, (rep, R, 2), {"real": True}, "span")
        w = spinor.get_spinor_factor_system(L, R)[0].astype(complex)
        table = group.get_cayley_table(R)
        gens = pointgroup.get_pointgroup_chain_generators(R)
        for j, m in enumerate(("Neto", "random")):
            vary(rec, f"{b}factor system {m}", irreps.enumerate_unitary_irreps, (R, w), {"method": m}, "irreps", (h + j, 3) if q else None)
            vary(rec, f"{b}factor system {m} real", irreps.enumerate_unitary_irreps, (R, w), {"method": m, "real": True}, "irreps", (h + j + 1, 4) if q else None)
        vary(rec, b + "by table", irreps.enumerate_unitary_irreps_from_solvable_group_chain, (table, w, gens), {}, "irreps", (h, 3) if q else None, index=(0,))
        reg = representation.get_projective_regular_representation(R, w)
        vary(rec, b + "projective regular", representation.get_projective_regular_representation, (R, w), {}, "exact")
        vary(rec, b + "cocycle", group.check_cocycle_condition, (R[:8], w[:8, :8]), {}, "exact")
        vary(rec, b + "representation", representation.is_representation, (reg, table, w), {}, "exact", (h, 2) if q else None, index=(1,))
        for j, f in enumerate((irreps.enumerate_unitary_irreps_from_regular_representation, irreps.decompose_representation)):
            vary(rec, b + f.__name__, f, (reg,), {}, "irreps", (h + j, 3) if q else None)
        D = min(irreps.enumerate_unitary_irreps(R)[0], key=lambda x: (np.any(x.imag), -x.shape[1]))
        vary(rec, b + "project", representation.project_to_irrep, (rep, D), {}, "span")
        vary(rec, b + "intertwiner", representation.get_intertwiner, (D, D), {}, "exact")
        vary(rec, b + "product", representation.get_direct_product, (rep, D), {}, "exact")
        vary(rec, b + "regular", representation.get_regular_representation, (R,), {}, "exact")
        return
    if kind == "msg":
        ops = msg_std_primitive(h)
        Rf, tf = ops.floats()
        L = lattice_for(Rf, "generic")
        tr = np.asarray(ops.tr, dtype=bool)
        k = kfloat(KS[h // 3 % 5])
        vary(rec, f"uni={h} corep", S.get_spacegroup_spinor_irreps_from_primitive_symmetry, (L, Rf, tf, tr, k), {}, "irreps", (h // 3, 15) if q else None)
        vary(rec, f"uni={h} little", group.get_little_group, (Rf, tf, k), {"time_reversals": tr}, "exact", (h // 3, 3) if q else None)
        vary(rec, f"uni={h} split", group.decompose_by_maximal_space_subgroup, (Rf, tf, tr), {}, "exact", (h // 3, 3) if q else None)
        vary(rec, f"uni={h} unique", transform.unique_primitive_symmetry, (Rf, tf), {"time_reversals": tr}, "exact", (h // 3, 3) if q else None)
        return
    ops = hall_std_primitive(h)
    Rf, tf = ops.floats()
    L = lattice_for(Rf, "generic")
    for i in range(1 if q else 5):
        kk = KS[(h + i) % 5]
        k = kfloat(kk)
        b = f"hall={h} k={fmt(kk)} "
        for j, m in enumerate(("Neto", "random")):
            vary(rec, b + m, S.get_spacegroup_irreps_from_primitive_symmetry, (Rf, tf, k), {"method": m}, "irreps", (h + i + j, 7) if q else None)
        vary(rec, b + "spin", S.get_spacegroup_spinor_irreps_from_primitive_symmetry, (L, Rf, tf), {"kpoint": k}, "irreps", (h + i + 2, 9) if q else None)
        vary(rec, b + "little", group.get_little_group, (Rf, tf, k), {}, "exact", (h + i, 3) if q else None)
        P = np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1.0]])
        vary(rec, b + "transform", transform.transform_symmetry_and_kpoint, (P, Rf, tf, k), {}, "exact", (h + i, 3) if q else None)
    if len(ops) <= 12 or h % 4 == 0 or not q:
        cell = orbit_structure(hall_conventional(h))
        vary(rec, f"crystal of hall={h}", S.get_spacegroup_irreps, cell + (k,), {}, "irreps", (h, 12) if q else (h, 2))
        vary(rec, f"crystal of hall={h} reciprocal", S.get_spacegroup_irreps, cell + (k,), {"reciprocal_lattice": np.linalg.inv(cell[0]).T}, "irreps", (h + 5, 29) if q else (h, 4))
        vary(rec, f"crystal of hall={h} magnetic", S.get_spacegroup_spinor_irreps, cell + (np.ones(len(cell[2])), k), {}, "irreps", (h + 7, 29) if q else (h, 4))
