"""C16: factor systems of little co-groups."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, dedupe, is_cocycle, kfloat, kgrid, little_indices
from mc.gen import LINES, deviate, hall_std_primitive, lattice_for
from mc.util import call, fmt, group_table

RULE = (
    "one case = (space group, k vector, presentation): every entry is compared with exp(-2 pi i g_i.w_j) computed in exact "
    "arithmetic, and the cocycle identity is decided exactly for all triples"
)
CHUNK = 4
DEVS = ("none", "lattice-shift", "reverse", "origin", "basis1", "kG", "-k", "general-origin", "skew", "basis3+lattice-shift", "basis2+kG")


def kset(tier):
    ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4)[1::2] + LINES)
    if tier == "thorough":
        ks = dedupe(kgrid(2) + kgrid(3) + kgrid(4) + LINES)
    return ks


def bounds(tier):
    return (f"530 Hall numbers x {len(kset(tier))} k vectors without symmetry reduction x presentations "
            f"{'all of ' + str(len(DEVS)) if tier == 'thorough' else '(two) rotated through ' + str(len(DEVS))}; cocycle validator called on little groups up to order 8; "
            "corep factor system of enumerate_spinor functions is covered by C05 and C07")


def tasks(tier):
    return [(h, tier) for h in range(530, 0, -1)]


def check(task, rec):
    from spgrep.group import check_cocycle_condition as CC, get_factor_system_from_little_group as FS

    h, tier = task
    std = hall_std_primitive(h)
    seen = set()
    for i, k in enumerate(kset(tier)):
        for d in DEVS if tier == "thorough" else (DEVS[(i + h) % len(DEVS)], DEVS[(i + h + 4) % len(DEVS)]):
            ops, kk = deviate(d, std, k)
            li = little_indices(ops, kk)
            sub = ops.subset(li)
            m = Model(sub, kk)
            n = len(li)
            name = f"hall={h} k={fmt(k)} dev={d}"
            r, t = sub.floats()
            f = call(rec, name, FS, r, t, kfloat(kk))
            if f is None:
                continue
            # exact: D_i D_j = exp(2 pi i k.(t_i + t_j - t_i - R_i t_j)) D_k
            kt = (m.T @ m.kk) % m.N
            phase = (m.phase + kt[:, None] + kt[None, :] - kt[m.table]) % m.N
            want = np.exp(2j * np.pi * phase / m.N)
            rec.model(n, n * n)
            if np.shape(f) != (n, n) or not np.abs(f - want).max() < 1e-9:
                rec.violation(name, "factor system differs from exp(-2 pi i g_i.w_j)")
                continue
            if not is_cocycle(m.table, phase, m.N):
                rec.violation(name, "cocycle identity fails in exact arithmetic")
                continue
            rec.transitions += n**3
            sig = (tuple(li), phase.tobytes())
            if n <= (24 if tier == "thorough" else 8) and sig not in seen:
                seen.add(sig)
                ok = call(rec, name + " validator", CC, r, f)
                if ok is not None and not ok:
                    rec.violation(name + " validator", "check_cocycle_condition rejects the factor system")
            if np.any(phase):
                rec.count("nontrivial")
                rec.sample(f"{name}: order {n}, {int((phase != 0).sum())} entries other than 1")
