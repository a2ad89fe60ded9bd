"""C03: complete unitary irreps of every crystallographic point group, in any basis and order."""
from __future__ import annotations

import numpy as np

from mc.reps import check_complete
from mc.util import call, classes, conjugates, group_table, num_classes, orderings, skewed

RULE = (
    "one case = (point group given by its integer matrices, order of the list, method); bases: every distinct "
    "conjugate by a unimodular matrix with entries in {-1,0,1} up to the stated size of entries"
)
CHUNK = 1


def bounds(tier):
    return ("122 rotation sets of the 530 settings x {reversed, every cyclic shift, coprime strides} x both methods; all their "
            f"conjugates with matrix entries {'up to 2 (24,600 groups)' if tier == 'quick' else 'up to 4 (58,300 groups)'} x both methods (entries above 1: chain method); skewed bases made by one or two shears (entries of the operations up to 1e6)")


def tasks(tier):
    return [(h, R.tolist(), what, tier) for h, R in classes() for what in ("order", "basis", "skew")][::-1]


def one(P, rec, name, R, method, table=None):
    table = group_table(R) if table is None else table
    out = call(rec, name, P, R, method=method)
    if out is None:
        return
    n = len(R)
    rec.model(n, n * n, len(out))
    msg = check_complete(out, table, np.ones((n, n)), n, num_classes(table))
    if msg:
        rec.violation(name, msg)
        return
    if n > 1:
        rec.count("nontrivial")
    rec.sample(f"{name}: order {n}, dimensions {sorted(x.shape[1] for x in out)}")


def check(task, rec):
    from spgrep import get_crystallographic_pointgroup_irreps_from_symmetry as P

    h, R, what, tier = task
    R = np.array(R)
    if what == "order":
        for oname, perm in orderings(len(R)):
            for method in ("Neto", "random"):
                one(P, rec, f"pointgroup of hall={h} order={oname} method={method}", R[perm], method)
    elif what == "skew":
        table = group_table(R)
        for u, Q in skewed(R) if tier == "thorough" else skewed(R, (34, 100), (21,)):
            one(P, rec, f"pointgroup of hall={h} basis={u.tolist()} method=Neto", Q, "Neto", table)
    else:
        table = group_table(R)
        for u, Q in conjugates(R, 2 if tier == "quick" else 4):
            name = f"pointgroup of hall={h} basis={u.tolist()}"
            small = np.abs(Q).max() <= 1
            for method in ("Neto", "random") if small else ("Neto",):
                one(P, rec, f"{name} method={method}", Q, method, table)
