"""C04: chain generators of a point group give a normal series with Abelian factors up to the whole group."""
from __future__ import annotations

import numpy as np

from mc.util import call, classes, conjugates, group_table, orderings, skewed, table_identity

RULE = "one case = one point group given by integer matrices in one basis and one order"
CHUNK = 1


def bounds(tier):
    return ("122 rotation sets of the 530 settings x all orderings (reversed, cyclic shifts, strides), and all their distinct "
            f"conjugates by unimodular matrices with entries in {{-1,0,1}} (67,000 bases), and 60 skewed bases each made by one or two shears (entries of the operations up to 1e6{'; each also followed by two skew bases' if tier == 'thorough' else ''})")


def tasks(tier):
    return [(h, R.tolist(), what, tier) for h, R in classes() for what in (("basis", "order", "skew", "basis2") if tier == "thorough" else ("basis", "order", "skew"))][::-1]


def series(table, gens):
    """Orders of the series generated from the end of the list, or an error message."""
    n = len(table)
    inv = np.argmax(table == table_identity(table), axis=1)
    H = {table_identity(table)}
    orders = [1]
    for g in reversed(gens):
        new = set(H) | {g}
        while True:
            a = np.array(sorted(new))
            b = set(table[np.ix_(a, a)].ravel().tolist())
            if b == new:
                break
            new = b
        # H normal in new
        for x in new:
            for s in H:
                if table[table[x, s], inv[x]] not in H:
                    return None, f"subgroup of order {len(H)} is not normal in the next one (order {len(new)})"
        # new / H Abelian
        for x in new:
            for y in new:
                c = table[table[x, y], table[inv[x], inv[y]]]
                if c not in H:
                    return None, f"factor group {len(new)}/{len(H)} is not Abelian"
        H = new
        orders.append(len(H))
    if len(H) != n:
        return None, f"series stops at order {len(H)} of {n}"
    return orders, None


def one(G, rec, name, R, table):
    gens = call(rec, name, G, R)
    if gens is None:
        return
    n = len(R)
    gens = [int(g) for g in gens]
    rec.model(n, n * len(gens))
    if any(g < 0 or g >= n for g in gens):
        rec.violation(name, f"generator indices {gens} out of range for {n} operations")
        return
    orders, msg = series(table, gens)
    if msg:
        rec.violation(name, msg + f"; generators {gens}")
        return
    if n > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: generators {gens}, orders {orders}")


def check(task, rec):
    from spgrep.pointgroup import get_pointgroup_chain_generators as G

    h, R, what, tier = task
    R = np.array(R)
    table = group_table(R)
    if what == "order":
        for oname, perm in orderings(len(R)):
            one(G, rec, f"pointgroup of hall={h} order={oname}", R[perm], group_table(R[perm]))
    elif what == "skew":
        for u, Q in skewed(R):
            one(G, rec, f"pointgroup of hall={h} basis={u.tolist()}", Q, table)
    elif what == "basis":
        for u, Q in conjugates(R):
            one(G, rec, f"pointgroup of hall={h} basis={u.tolist()}", Q, table)
    else:
        for u, Q in conjugates(R):
            for v in ([[1, 2, 0], [0, 1, 3], [0, 0, 1]], [[1, 0, 0], [-2, 1, 0], [1, 4, -1]]):
                vi = np.rint(np.linalg.inv(v)).astype(int)
                S = np.einsum("ab,nbc,cd->nad", vi, Q, np.array(v))
                one(G, rec, f"pointgroup of hall={h} basis={(u @ np.array(v)).tolist()}", S, table)
