"""C01: complete unitary small representations for every space group and k vector (primitive cells)."""
from __future__ import annotations

import warnings
from fractions import Fraction as F

import numpy as np

from mc.exact import (
    Model, dedupe, hall_primitive, kfloat, kgrid, little_indices, num_projective_irreps,
    star_representatives,
)
from mc.gen import LINES, deviate, hall_std_primitive
from mc.reps import check_complete

RULE = (
    "one case = (Hall number, k vector, method, deviation from the default presentation); the default "
    "is the customary primitive basis with spglib's operation order and translations in [0,1)"
)
CHUNK = 2
DEV = ["reverse", "rotate", "interleave", "lattice-shift", "origin", "general-origin", "k+G", "-k", "basis0", "basis1",
       "basis2", "basis3", "skew"]
DEV2 = ["origin+reverse", "lattice-shift+interleave", "basis1+k+G", "basis2+lattice-shift", "basis3+origin",
        "origin+-k", "lattice-shift+k+G"]


def ksets(tier):
    main = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    dev = dedupe(kgrid(2) + kgrid(3) + LINES[:20:2])
    if tier == "thorough":
        main = dedupe(main + kgrid(5) + kgrid(6) + kgrid(8) + kgrid(12))
        dev = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return main, dev


def bounds(tier):
    m, d = ksets(tier)
    return (f"all 530 Hall numbers; default presentation: star representatives of {len(m)} k vectors; each of "
            f"{len(DEV) + 1} single deviations{' and ' + str(len(DEV2)) + ' double deviations' if tier == 'thorough' else ''}: "
            f"star representatives of {len(d)} k vectors; both methods")


def tasks(tier):
    return [(h, tier) for h in range(1, 531)]


def one(G, rec, ops, k, key, method, **kw):
    R, t = ops.floats()
    li = little_indices(ops, k)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            irreps, mp = G(R, t, kfloat(k), method=method, **kw)
        except Exception as e:
            rec.violation(key, f"raised {e!r}"[:300])
            return
    n = len(li)
    order = [int(i) for i in mp]
    if sorted(order) != li:
        rec.violation(key, f"little group {order}, exact little group {li}")
        return
    m = Model(ops.subset(order), k)
    assert m.closed and m.integral
    rec.model(n, n * n, len(irreps))
    if [x for x in w if issubclass(x.category, UserWarning)]:
        rec.violation(key, f"warning: {w[-1].message}")
        return
    msg = check_complete(irreps, m.table, m.phase_complex(), n, num_projective_irreps(m.table, m.phase, m.N))
    if msg:
        rec.violation(key, msg)
        return
    if n > 1:
        rec.count("nontrivial")
    rec.sample(f"{key}: little group order {n}, dimensions {sorted(x.shape[1] for x in irreps)}")


def check(task, rec):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as G

    h, tier = task
    main, dev = ksets(tier)
    std = hall_std_primitive(h)
    for k in star_representatives(std, main):
        for method in ("Neto", "random"):
            one(G, rec, std, k, f"hall={h} k={fmt(k)} method={method} dev=none", method)
    hnf = hall_primitive(h)
    for k in star_representatives(hnf, dev):
        for method in ("Neto", "random"):
            one(G, rec, hnf, k, f"hall={h} k={fmt(k)} method={method} dev=hnf-basis", method)
    for k in star_representatives(std, dev):
        for d in DEV + (DEV2 if tier == "thorough" else []):
            o, kk = deviate(d, std, k)
            for method in ("Neto", "random") if tier == "thorough" else ("Neto",):
                one(G, rec, o, kk, f"hall={h} k={fmt(k)} method={method} dev={d}", method)


def fmt(k):
    return ",".join(str(x) for x in k)
