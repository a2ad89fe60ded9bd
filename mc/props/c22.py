"""C22: multiplication tables, identity, inverses, element orders and the group test are exact."""
from __future__ import annotations

import itertools

import numpy as np

from mc.exact import key
from mc.gen import magnetic_pointgroups
from mc.util import call, classes, conjugates, group_table, orderings

RULE = (
    "one case = one list of integer matrices (with time reversal flags or not): a group in some order and basis, or a subset of a group; "
    "closure is decided by exact integer arithmetic"
)
CHUNK = 1
SUBSET_LIMIT = {"quick": 12, "thorough": 16}


def bounds(tier):
    return (f"122 rotation sets x all orders, conjugate bases with entries up to {'3' if tier == 'quick' else '8 (67,000)'} and two skewed bases; all magnetic point groups x orders; every subset of the groups up to order "
            f"{SUBSET_LIMIT[tier]}, every subset of at most {2 if tier == 'quick' else 3} and of all but at most 2 elements of the larger ones; lists with repetitions; "
            f"every set of at most 3 of the 81 matrices with a 2x2 block of entries in {{-1,0,1}} (singular ones included)")


def tasks(tier):
    out = [("pg", h, R.tolist(), None, tier) for h, R in classes()][::-1]
    out += [("sub", h, R.tolist(), None, tier) for h, R in classes()][::-1]
    out += [("mpg", u, R.tolist(), tr.tolist(), tier) for u, R, tr in magnetic_pointgroups().values()]
    out += [("small", i, [], None, tier) for i in range(81)]
    return out


def small_sets(first, rec, G):
    """Sets of matrices whose smallest index is ``first``."""
    B = np.array(list(itertools.product((-1, 0, 1), repeat=4))).reshape(-1, 2, 2)
    M = np.zeros((81, 3, 3), int)
    M[:, :2, :2] = B
    M[:, 2, 2] = 1
    idx = {B[i].tobytes(): i for i in range(81)}
    prod = np.array([[idx.get((a @ b).tobytes(), -1) for b in B] for a in B])
    one = idx[np.eye(2, dtype=int).tobytes()]
    for m in (1, 2, 3):
        for rest in itertools.combinations(range(first + 1, 81), m - 1):
            s = (first,) + rest
            t = prod[np.ix_(s, s)]
            isclosed = set(t.ravel().tolist()) <= set(s)
            latin = isclosed and all(len(set(r.tolist())) == m for r in t) and all(len(set(r.tolist())) == m for r in t.T)
            if latin and one not in s:
                continue  # a group whose neutral element is not the identity matrix: either answer is defensible
            got = call(rec, f"set {B[list(s)].tolist()}", G, M[list(s)])
            rec.model(m, m * m)
            if got is None:
                return
            if bool(got) != latin:
                rec.violation(f"set of blocks {B[list(s)].tolist()}", f"{'accepted' if got else 'rejected'} as a group")
                return
            rec.count("nontrivial", int(isclosed and m > 1))
    rec.sample(f"all sets of up to 3 blocks containing {B[first].tolist()} first")


def table_case(rec, name, f, Q, t, tr=None, full=True):
    T, I, V, O = f
    args = (Q,) if tr is None else (Q, np.array(tr))
    got = call(rec, name, T, *args)
    if got is None:
        return
    n = len(Q)
    rec.model(n, n * n)
    if np.shape(got) != (n, n) or not np.array_equal(got, t):
        rec.violation(name, "multiplication table has a wrong entry")
        return
    if not full:
        rec.count("nontrivial", int(n > 1))
        return
    e = call(rec, name, I, got)
    if e is None or not np.array_equal(t[int(e)], np.arange(n)):
        rec.violation(name, f"identity index {e}")
        return
    for i in range(n):
        v = call(rec, name, V, got, i)
        if v is None or t[i, int(v)] != e:
            rec.violation(name, f"inverse of {i} is reported as {v}")
            return
        m, j = 1, i
        while j != e:
            j, m = t[j, i], m + 1
        o = call(rec, name, O, got, i)
        if o is None or int(o) != m:
            rec.violation(name, f"order of element {i} is {m}, reported {o}")
            return
    if n > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: order {n}, identity {int(e)}")


def closed(Q):
    s = {key(r) for r in Q}
    return len(s) == len(Q) and all(key(a @ b) in s for a in Q for b in Q)


def subset_case(rec, name, G, T, Q, want):
    rec.model(len(Q), len(Q) ** 2)
    got = call(rec, name, G, Q)
    if got is None:
        return
    if bool(got) != want:
        rec.violation(name, f"{'accepted' if got else 'rejected'} as a group, closure is {want}")
        return
    if not want:
        s = {key(r) for r in Q}
        if len(s) == len(Q) and not all(key(a @ b) in s for a in Q for b in Q):
            try:
                out = T(Q)
                rec.violation(name, f"multiplication table {np.asarray(out).tolist()} for operations that are not closed")
            except Exception:
                rec.count("nontrivial")


def check(task, rec):
    from spgrep.group import get_cayley_table as T, get_identity_index as I, get_inverse_index as V, get_order as O, is_matrix_group as G

    kind, h, R, tr, tier = task
    if kind == "small":
        return small_sets(h, rec, G)
    R = np.array(R)
    f = (T, I, V, O)
    n = len(R)
    if kind == "mpg":
        tr = np.array(tr)
        for oname, perm in orderings(n) if n <= 24 or tier == "thorough" else orderings(n)[:4]:
            table_case(rec, f"magnetic pointgroup of uni={h} order={oname}", f, R[perm], group_table(R[perm], tr[perm]), tr[perm])
        return
    if kind == "pg":
        for oname, perm in orderings(n):
            Q = R[perm]
            name = f"pointgroup of hall={h} order={oname}"
            table_case(rec, name, f, Q, group_table(Q))
            subset_case(rec, name, G, T, Q, True)
        t = group_table(R)
        for u, Q in conjugates(R, 3 if tier == "quick" else None):
            table_case(rec, f"pointgroup of hall={h} basis={u.tolist()}", f, Q, t, full=np.abs(Q).max() <= 1 or tier == "thorough")
        for v in ([[1, 2, 0], [0, 1, 3], [0, 0, 1]], [[1, 0, 0], [-5, 1, 0], [11, 7, -1]]):
            vi = np.rint(np.linalg.inv(v)).astype(int)
            Q = np.einsum("ab,nbc,cd->nad", vi, R, np.array(v))
            table_case(rec, f"pointgroup of hall={h} basis={v}", f, Q, t)
            subset_case(rec, f"pointgroup of hall={h} basis={v}", G, T, Q, True)
        return
    t = group_table(R)

    def want(idx):
        s = set(idx)
        return len(s) == len(idx) and all(t[a, b] in s for a in idx for b in idx)

    full = n <= SUBSET_LIMIT[tier]
    sizes = range(1, n + 1) if full else sorted({1, 2, n - 1, n} | ({3, n - 2} if tier == "thorough" else set()))
    for m in sizes:
        for idx in itertools.combinations(range(n), m):
            subset_case(rec, f"pointgroup of hall={h} subset={list(idx)}", G, T, R[list(idx)], want(idx))
    # repetitions, orders, operations outside the group
    for i in range(min(n, 6)):
        subset_case(rec, f"pointgroup of hall={h} with operation {i} twice", G, T, np.concatenate([R, R[i : i + 1]]), False)
    extra = np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]])
    subset_case(rec, f"pointgroup of hall={h} with a shear", G, T, np.concatenate([R, extra[None]]), False)
    subset_case(rec, f"pointgroup of hall={h} with the zero matrix", G, T, np.concatenate([R, np.zeros((1, 3, 3), int)]), False)
