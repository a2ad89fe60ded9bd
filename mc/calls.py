"""An alphabet of calls on small inputs whose keys collide on purpose (same rotations, other translations, k, order, ...)."""
from __future__ import annotations

import numpy as np

from mc.gen import deviate, hall_std_primitive, lattice_for, msg_std_primitive
from fractions import Fraction as F

Z = np.zeros(3)


def _hall(h, dev=None):
    ops = hall_std_primitive(h)
    if dev:
        ops, _ = deviate(dev, ops, (F(0),) * 3)
    return ops.floats()


def _rotate_first(a):
    return np.roll(a, 1, axis=0)


def build():
    """Ordered dict name -> (function path, builder of (args, kwargs)); nothing of spgrep is called here."""
    out = {}
    core = "spgrep.core"
    G = (core, "get_spacegroup_irreps_from_primitive_symmetry")
    P = (core, "get_crystallographic_pointgroup_irreps_from_symmetry")
    GS = (core, "get_spacegroup_spinor_irreps_from_primitive_symmetry")
    PS = (core, "get_crystallographic_pointgroup_spinor_irreps_from_symmetry")
    ST = (core, "get_spacegroup_irreps")
    STS = (core, "get_spacegroup_spinor_irreps")

    # 18 = P 2_1 2_1 2 family: same rotations, different translations (P222 hall 108, P21 21 21 hall 115)
    A = _hall(108)
    B = _hall(115)
    C = _hall(115, "reverse")
    kz = np.array([0.0, 0.0, 0.5])
    kr = np.array([0.5, 0.5, 0.5])

    def add(name, f, *args, **kw):
        out[name] = (f, args, kw)

    add("sg P222 k=0", G, *A, Z)
    add("sg P222 k=R", G, *A, kr)
    add("sg P212121 k=0", G, *B, Z)
    add("sg P212121 k=Z", G, *B, kz)
    add("sg P212121 k=R", G, *B, kr)
    add("sg P212121 k=R random", G, *B, kr, method="random")
    add("sg P212121 k=R real", G, *B, kr, real=True)
    add("sg P212121 reversed k=R", G, *C, kr)
    add("sg bad method", G, *A, Z, method="Neta")
    add("sg not primitive", G, A[0], A[1] + np.array([0.5, 0, 0]), Z)
    p4, p3 = hall_std_primitive(349).R, hall_std_primitive(430).R
    add("pg 4", P, p4)
    add("pg 4 real", P, p4, real=True)
    add("pg 4 rolled", P, _rotate_first(p4))
    add("pg 4 random", P, p4, method="random")
    p22 = hall_std_primitive(108).R
    add("pg 222 random", P, p22, method="random")
    add("pg 222", P, p22)
    add("sg P222 k=0 random", G, *A, Z, method="random")
    add("pg 3", P, p3)
    L1, L2 = lattice_for(p4, "axes"), lattice_for(p4, "flipped")
    add("pg spin 4 axes", PS, L1, p4)
    add("pg spin 4 flipped", PS, L2, p4)
    La, Lb = lattice_for(A[0], "axes"), lattice_for(A[0], "permuted")
    add("sg spin P222 axes k=0", GS, La, *A, kpoint=Z)
    add("sg spin P212121 permuted k=R", GS, Lb, *B, kpoint=kr)
    m1 = msg_std_primitive(80)  # any small magnetic group with antiunitary operations
    tr = np.asarray(m1.tr)
    R, t = m1.floats()
    Lm = lattice_for(R, "axes")
    add("msg k=0", GS, Lm, R, t, tr, Z)
    add("msg k=Z", GS, Lm, R, t, tr, kz)
    add("msg flags off", GS, Lm, R, t, np.zeros_like(tr), Z) if len(np.unique(R.reshape(len(R), 9), axis=0)) == len(R) else None
    cell = (np.diag([3.0, 3.5, 4.0]), np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]]), np.array([1, 1]))
    cell2 = (np.diag([3.0, 3.5, 4.0]), np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]]), np.array([1, 2]))
    add("crystal I", ST, *cell, kr)
    add("crystal P", ST, *cell2, kr)
    add("crystal I other reciprocal", ST, *cell, kr, reciprocal_lattice=np.diag([1.0, 1.0, 1.0]) @ np.linalg.inv(cell[0]).T * 2)
    add("crystal spin", STS, *cell2, kpoint=kz)
    add("crystal magnetic", STS, *cell, magmoms=np.array([1.0, -1.0]), kpoint=kz)
    table = np.array([[0, 1], [1, 0]])
    i2 = np.array([np.eye(3, dtype=int), -np.eye(3, dtype=int)])
    m2 = np.array([np.eye(3, dtype=int), np.diag([1, 1, -1])])
    add("table 1'", ("spgrep.group", "get_cayley_table"), np.array([np.eye(3, dtype=int)] * 2), np.array([0, 1]))
    add("table -1", ("spgrep.group", "get_cayley_table"), i2)
    add("chain -1", ("spgrep.pointgroup", "get_pointgroup_chain_generators"), i2)
    add("chain m", ("spgrep.pointgroup", "get_pointgroup_chain_generators"), m2[::-1].copy())
    vec = m2.astype(float)
    add("project", ("spgrep.representation", "project_to_irrep"), vec, np.array([1.0, -1.0]).reshape(2, 1, 1))
    add("project other", ("spgrep.representation", "project_to_irrep"), vec, np.array([1.0, 1.0]).reshape(2, 1, 1))
    add("tensor", ("spgrep.tensor", "get_symmetry_adapted_tensors"), vec, m2, 2, real=True)
    add("tensor 1", ("spgrep.tensor", "get_symmetry_adapted_tensors"), vec, m2, 1, real=True)
    add("symmetrise", ("spgrep.tensor", "apply_intrinsic_symmetry"), [np.arange(9.0).reshape(3, 3), np.eye(3)])
    add("decompose", ("spgrep.irreps", "decompose_representation"), vec)
    add("intertwiner", ("spgrep.representation", "get_intertwiner"), np.array([np.eye(2), np.diag([1, -1])], complex), np.array([np.eye(2), np.diag([-1, 1])], complex))
    add("purify", ("spgrep.irreps", "get_physically_irrep"), np.array([1, 1j, -1, -1j]).reshape(4, 1, 1), 0)
    add("transform", ("spgrep.transform", "transform_symmetry_and_kpoint"), np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]), m2, np.zeros((2, 3)), kz)
    add("unique", ("spgrep.transform", "unique_primitive_symmetry"), np.concatenate([m2, m2]), np.concatenate([np.zeros((2, 3)), np.ones((2, 3)) * 0.5]))
    add("little", ("spgrep.group", "get_little_group"), *A, np.array([0.2, 0, 0]))
    add("little all", ("spgrep.group", "get_little_group"), *A, Z)
    add("little all magnetic", ("spgrep.group", "get_little_group"), R, t, Z, time_reversals=tr)
    add("transform by 1", ("spgrep.transform", "transform_symmetry_and_kpoint"), np.eye(3), m2, np.zeros((2, 3)), kz)
    add("unique already", ("spgrep.transform", "unique_primitive_symmetry"), *A)
    add("small reps", ("spgrep.irreps", "enumerate_small_representations"), *B, kr)
    add("small reps real", ("spgrep.irreps", "enumerate_small_representations"), *B, kz, real=True)
    add("unitary irreps", ("spgrep.irreps", "enumerate_unitary_irreps"), p4)
    ones = np.ones((2, 1, 1), dtype=complex)
    add("character", ("spgrep.representation", "get_character"), ones)
    add("regular", ("spgrep.representation", "get_regular_representation"), p3)
    add("direct product", ("spgrep.representation", "get_direct_product"), ones, vec.astype(complex))
    add("direct product with 1", ("spgrep.representation", "get_direct_product"), vec, ones)
    add("symmetrise symmetric", ("spgrep.tensor", "apply_intrinsic_symmetry"), [np.eye(3), np.diag([1.0, 2, 3])])
    add("tensor all", ("spgrep.tensor", "get_symmetry_adapted_tensors"), np.ones((2, 1, 1)), m2, 1, real=True)
    add("project all", ("spgrep.representation", "project_to_irrep"), np.ones((2, 1, 1)), ones)
    add("regular irreps", ("spgrep.irreps", "enumerate_unitary_irreps_from_regular_representation"), (lambda t: np.array([np.eye(4)[t[g]].T for g in range(4)]))(np.add.outer(np.arange(4), np.arange(4)) % 4))
    add("regular irreps 22", ("spgrep.irreps", "enumerate_unitary_irreps_from_regular_representation"), (lambda t: np.array([np.eye(4)[t[g]].T for g in range(4)]))(np.bitwise_xor.outer(np.arange(4), np.arange(4))))
    add("spinor small", ("spgrep.spinor", "enumerate_spinor_small_representations"), L1, p4)
    add("pi axis", ("spgrep.spinor", "get_rotation_angle_and_axis"), np.diag([-1.0, -1.0, 1.0]))
    add("no rotation", ("spgrep.spinor", "get_rotation_angle_and_axis"), np.eye(3))
    add("intertwiner same", ("spgrep.representation", "get_intertwiner"), ones, ones)
    add("mode dot nothing", ("spgrep.utils", "mode_dot"), np.arange(4.0).reshape(2, 2), [])
    add("mode dot", ("spgrep.utils", "mode_dot"), np.arange(4.0).reshape(2, 2), [np.eye(2), np.ones((2, 2))])
    add("factor", ("spgrep.group", "get_factor_system_from_little_group"), *B, kr)
    add("spinor factor", ("spgrep.spinor", "get_spinor_factor_system"), L1, p4)
    add("xsg", ("spgrep.group", "decompose_by_maximal_space_subgroup"), R, t, tr)
    add("hall", ("spgrep.utils", "get_symmetry_from_hall_number"), 115)
    add("hall 2", ("spgrep.utils", "get_symmetry_from_hall_number"), 4)
    add("primitive matrix", ("spgrep.transform", "get_primitive_transformation_matrix"), 9)
    add("mode dot 2", ("spgrep.utils", "mode_dot"), np.arange(4.0).reshape(2, 2), [np.array([[1.0, 2], [3, 4]])] * 2)
    add("mode dot 3", ("spgrep.utils", "mode_dot"), np.ones((2, 2)), [np.array([[1.0, -2], [3, 4]])] * 2)
    q4 = np.array([1, 1j, -1, -1j]).reshape(4, 1, 1)
    add("intertwiner 3", ("spgrep.representation", "get_intertwiner"), q4, q4)
    add("decompose 3", ("spgrep.irreps", "decompose_representation"), p3.astype(float))
    add("chain 4", ("spgrep.pointgroup", "get_pointgroup_chain_generators"), p4)
    add("factor 2", ("spgrep.group", "get_factor_system_from_little_group"), *A, kz)
    add("spinor factor 2", ("spgrep.spinor", "get_spinor_factor_system"), La, A[0])
    add("purify 2", ("spgrep.irreps", "get_physically_irrep"), np.array([1, -1, 1, -1], complex).reshape(4, 1, 1), 1)
    add("table 4", ("spgrep.group", "get_cayley_table"), p4)
    add("regular 4", ("spgrep.representation", "get_regular_representation"), p4)
    add("xsg 2", ("spgrep.group", "decompose_by_maximal_space_subgroup"), R[::-1].copy(), t[::-1].copy(), tr[::-1].copy())
    add("third axis", ("spgrep.spinor", "get_rotation_angle_and_axis"), np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]]))
    add("primitive matrix 2", ("spgrep.transform", "get_primitive_transformation_matrix"), 530)
    # pairs that differ in one argument only
    add("sg P222 k=R random, tight", G, *A, kr, method="random", atol=1e-10, rtol=1e-8)
    add("sg P222 k=Z", G, *A, kz)
    add("sg P222 k=-Z", G, *A, -kz)
    add("sg P212121 k=R, other translations", G, B[0], B[1] + np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]])[np.arange(len(B[1])) % 4] * (np.arange(len(B[1])) > 0)[:, None], kr)
    for e in (1e-9, 3e-7, 2e-5, 1e-3):
        add(f"sg P222 k=Z+{e}", G, *A, kz + np.array([e, 0, 0]))
        add(f"factor k=R+{e}", ("spgrep.group", "get_factor_system_from_little_group"), *B, kr - np.array([0, 0, e])) if e in (1e-9, 3e-7) else None
    add("sg P222 k=Z+3e-7, atol=1e-5", G, *A, kz + np.array([3e-7, 0, 0]), atol=1e-5)
    add("little, atol=0.5", ("spgrep.group", "get_little_group"), *A, np.array([0.2, 0, 0]), atol=0.5)
    near = (np.diag([3.0, 3.5, 4.0]), np.array([[0.0, 0, 0], [0.5, 0.5, 0.501]]), np.array([1, 1]))
    add("crystal nearly I", ST, *near, kr)
    add("crystal nearly I, symprec=0.1", ST, *near, kr, symprec=0.1)
    add("crystal I, k=0", ST, *cell, Z)
    add("crystal I random", ST, *cell, kr, method="random")
    add("crystal I tetragonal", ST, np.diag([3.0, 3.0, 4.0]), cell[1], cell[2], kr)
    add("crystal I shifted", ST, cell[0], cell[1] + np.array([0.25, 0, 0]), cell[2], kr)
    add("crystal spin k=0", STS, *cell2, kpoint=Z)
    add("crystal spin tetragonal", STS, np.diag([3.0, 3.0, 4.0]), *cell2[1:], kpoint=kz)
    add("crystal ferromagnetic", STS, *cell, magmoms=np.array([1.0, 1.0]), kpoint=kz)
    add("crystal nearly magnetic", STS, *near, magmoms=np.array([1.0, -1.0]), kpoint=kz)
    add("crystal nearly magnetic, symprec=0.1", STS, *near, magmoms=np.array([1.0, -1.0]), kpoint=kz, symprec=0.1)
    # 2'2'2 and 22'2': the same operations with other flags
    eye = np.eye(3, dtype=int)
    q = np.array([eye, np.diag([1, -1, -1]), np.diag([-1, 1, -1]), np.diag([-1, -1, 1])])
    for nm, fl in (("2'2'2", (0, 1, 1, 0)), ("22'2'", (0, 0, 1, 1)), ("222", (0, 0, 0, 0))):
        add(f"msg {nm} k=Z", GS, La, q, np.zeros((4, 3)), np.array(fl, bool), kz)
        add(f"xsg {nm}", ("spgrep.group", "decompose_by_maximal_space_subgroup"), q, np.zeros((4, 3)), np.array(fl, bool))
    add("little msg 2'2'2", ("spgrep.group", "get_little_group"), q, np.zeros((4, 3)), np.array([0.0, 0, 0.2]), time_reversals=np.array([0, 1, 1, 0], bool))
    add("little msg 22'2'", ("spgrep.group", "get_little_group"), q, np.zeros((4, 3)), np.array([0.0, 0, 0.2]), time_reversals=np.array([0, 0, 1, 1], bool))
    add("tensor complex", ("spgrep.tensor", "get_symmetry_adapted_tensors"), vec, m2, 2)
    v4 = p4.astype(float)
    add("tensor 4", ("spgrep.tensor", "get_symmetry_adapted_tensors"), v4, p4, 2, real=True)
    add("tensor 4 other vector", ("spgrep.tensor", "get_symmetry_adapted_tensors"), v4 * np.linalg.det(v4)[:, None, None] * (-1) ** np.arange(4)[:, None, None], p4, 2, real=True)
    add("intertwiner inequivalent", ("spgrep.representation", "get_intertwiner"), q4, np.ones((4, 1, 1), complex))
    add("intertwiner 4", ("spgrep.representation", "get_intertwiner"), q4, q4.conj())
    add("regular irreps failing", ("spgrep.irreps", "enumerate_unitary_irreps_from_regular_representation"), np.array([np.eye(2), np.array([[0.0, 1], [1, 0]])]), max_num_random_generations=0)
    add("purify -1", ("spgrep.irreps", "get_physically_irrep"), q4, -1)
    add("transform other k", ("spgrep.transform", "transform_symmetry_and_kpoint"), np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]), m2, np.zeros((2, 3)), kr)
    add("transform other matrix", ("spgrep.transform", "transform_symmetry_and_kpoint"), np.array([[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]]), m2, np.zeros((2, 3)), kz)
    for nm, fl in (("2'2'2", (0, 1, 1, 0)), ("22'2'", (0, 0, 1, 1))):
        add(f"pg spin {nm}", PS, La, q, np.array(fl, bool))
    return {k: v for k, v in out.items() if v is not None}


def resolve(f):
    import importlib

    return getattr(importlib.import_module(f[0]), f[1])


def arrays(x, path=""):
    """(path, array) for every array inside nested tuples, lists and dicts."""
    if isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from arrays(y, f"{path}[{i}]")
    elif isinstance(x, dict):
        for i, y in x.items():
            yield from arrays(y, f"{path}[{i!r}]")


def freeze(x):
    """Nested value as plain comparable data."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.kind, x.tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    if isinstance(x, dict):
        return ("d", {k: freeze(y) for k, y in x.items()})
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return int(x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return complex(x)
    return x


def differ(a, b, tol=1e-9, path="result"):
    """Message when two frozen values differ."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "a":
            if a[1] != b[1]:
                return f"{path}: shape {b[1]} instead of {a[1]}"
            x, y = np.array(a[3], dtype=complex), np.array(b[3], dtype=complex)
            if x.size and not np.abs(x - y).max() <= tol:
                return f"{path}: differs by {np.abs(x - y).max():.3g}"
            return None
        if a[0] in ("list", "tuple"):
            if len(a[1]) != len(b[1]):
                return f"{path}: {len(b[1])} entries instead of {len(a[1])}"
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                m = differ(x, y, tol, f"{path}[{i}]")
                if m:
                    return m
            return None
        if a[0] == "d":
            if a[1].keys() != b[1].keys():
                return f"{path}: other keys"
            for k in a[1]:
                m = differ(a[1][k], b[1][k], tol, f"{path}[{k}]")
                if m:
                    return m
            return None
    if isinstance(a, complex) and isinstance(b, complex):
        return None if abs(a - b) <= tol else f"{path}: {b} instead of {a}"
    return None if a == b else f"{path}: {b!r} instead of {a!r}"[:200]


def execute(entry, args=None, kw=None):
    """('ok', frozen result, raw result) or ('raise', exception type name, None); messages are not compared"""
    f, a, k = entry
    a, k = (a, k) if args is None else (args, kw)
    fn = resolve(f)
    try:
        out = fn(*a, **k)
    except Exception as e:
        return "raise", type(e).__name__, None
    return "ok", freeze(out), out
