"""C26: both enumeration algorithms on abstract finite groups with factor systems."""
from __future__ import annotations

import itertools

import numpy as np

from mc.exact import is_cocycle, num_projective_irreps
from mc.groups import NUM_GROUPS, chains, cocycle_classes, groups, relabel
from mc.props.c24 import gauge
from mc.reps import check_complete
from mc.util import call

RULE = (
    "one case = (abstract group, order of its elements, factor system, chain of generators) for the chain algorithm, the same without a "
    "chain for the decomposition of the regular representation and of further representations; identity anywhere in the list"
)
CHUNK = 1


def nmax(tier):
    return 24 if tier == "quick" else 31


def bounds(tier):
    q = tier == "quick"
    return (f"all {sum(NUM_GROUPS[: nmax(tier)])} groups of order <= {nmax(tier)}; all normal series with cyclic first and split prime further steps, "
            f"{1 if q else 3} generators per step, up to {12 if q else 60} per group; 2-cocycle classes with values +-1 (up to {8 if q else 16} per group), "
            f"and with cube roots of unity, x {3 if q else 7} coboundaries x {2 if q else 3} orders; the simple group of order 60 by its regular representation")


def tasks(tier):
    return [("A5", p, tier) for p in range(3)] + [(n, i, tier) for n in range(nmax(tier), 0, -1) for i in range(NUM_GROUPS[n - 1])]


def alternating():
    """Table of the simple group of order 60: no chain of subgroups, but a regular representation."""
    even = [p for p in itertools.permutations(range(5)) if sum(p[i] > p[j] for i in range(5) for j in range(i, 5)) % 2 == 0]
    at = {p: i for i, p in enumerate(even)}
    return np.array([[at[tuple(p[x] for x in q)] for q in even] for p in even])


def factor_systems(t, tier):
    n = len(t)
    out = [("1", 0 * t)]
    if n % 2 == 0:
        for c, w in enumerate(cocycle_classes(t, 2, 8 if tier == "quick" else 16)[1:]):
            out.append((f"sign{c + 1}", 60 * w))
    if n % 9 == 0:
        for c, w in enumerate(cocycle_classes(t, 3, 9)[1:]):
            out.append((f"cube{c + 1}", 40 * w))
    return out


def perms(n):
    i = np.arange(n)
    return [("as-listed", i), ("reversed", i[::-1].copy()), ("mixed", np.argsort((7 * i + 3) % (2 * n + 1), kind="stable"))]


def check(task, rec):
    from spgrep.irreps import (
        decompose_representation as D,
        enumerate_unitary_irreps_from_regular_representation as REG,
        enumerate_unitary_irreps_from_solvable_group_chain as CH,
    )

    if task[0] == "A5":
        pname, perm = perms(60)[task[1]]
        t = relabel(alternating(), perm)
        reg = np.zeros((60, 60, 60), dtype=complex)
        a = np.arange(60)
        reg[a[:, None], t, a[None, :]] = 1
        out = call(rec, f"A5 order={pname} regular", REG, (reg))
        if out is not None:
            rec.model(60, 3600, len(out))
            msg = check_complete(out, t, np.ones((60, 60)), 60, 5)
            if msg:
                rec.violation(f"A5 order={pname} regular", msg)
            else:
                rec.count("nontrivial")
        return
    n, i, tier = task
    t0 = groups(n)[i]
    if len(groups(n)) != NUM_GROUPS[n - 1]:
        raise RuntimeError("list of groups incomplete")
    ch = chains(t0, 1 if tier == "quick" else 3, 12 if tier == "quick" else 60)
    for fi, (fname, ph0) in enumerate(factor_systems(t0, tier)):
        for g in range(7) if tier != "quick" else (0, 1 + (fi + i) % 6, 1 + (fi + i + 3) % 6):
            c, N = gauge(g, n, 0)
            phase0 = (ph0 + c[:, None] + c[None, :] - c[t0]) % N
            if not is_cocycle(t0, phase0, N):
                raise RuntimeError("not a cocycle")
            want = num_projective_irreps(t0, phase0, N)
            for pi, (pname, perm) in enumerate(perms(n)):
                if tier == "quick" and pi == (fi + g) % 3:
                    continue
                t = relabel(t0, perm)
                place = np.argsort(perm)
                phase = phase0[np.ix_(perm, perm)]
                f = np.exp(2j * np.pi * phase / N)
                base = f"group {n}.{i} factor={fname} gauge={g} order={pname}"
                cases = [(f"{base} chain={[int(place[x]) for x in c]}", CH, (t, f, [int(place[x]) for x in c])) for c in ch]
                reg = np.zeros((n, n, n), dtype=complex)
                a = np.arange(n)
                reg[a[:, None], t, a[None, :]] = f
                cases.append((f"{base} regular", REG, (reg,)))
                if pi == 0 and n <= 12:
                    cases.append((f"{base} decomposed", D, (reg,)))
                for name, fn, args in cases:
                    out = call(rec, name, fn, *args)
                    if out is None:
                        continue
                    rec.model(n, n * n, len(out))
                    msg = check_complete(out, t, f, n, want)
                    if msg:
                        rec.violation(name, msg)
                        continue
                    if n > 1:
                        rec.count("nontrivial")
                    rec.sample(f"{name}: dimensions {sorted(x.shape[1] for x in out)}")
