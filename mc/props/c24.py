"""C24: complete unitary projective irreps for every normalised factor system of a point group."""
from __future__ import annotations

import numpy as np

from mc.exact import Model, dedupe, kgrid, little_indices
from mc.gen import hall_std_primitive, lattice_for
from mc.reps import check_complete
from mc.spin import expected_lift
from mc.util import call, classes, group_table, orderings, table_identity

RULE = (
    "one case = (point group, order, factor system given explicitly, method); factor systems: all sign and phase 2-cocycles met at zone-boundary k "
    "vectors and for spin, times the coboundaries of a catalogue of phase functions with value 1 at the identity"
)
CHUNK = 1
NC = 7


def bounds(tier):
    return f"122 rotation sets x {'all' if tier == 'thorough' else '3'} orders x {{ordinary, spin}} x {NC} coboundaries x both methods; 530 Hall numbers x distinct cocycles at {'216' if tier == 'thorough' else '35'} k vectors x {NC} coboundaries (rotated in the quick tier)"


def tasks(tier):
    return [("pg", h, R.tolist(), tier) for h, R in classes()][::-1] + [("sg", h, None, tier) for h in range(530, 0, -1)]


def gauge(j, n, e):
    """j-th phase function in turns (exact multiples of 1/N), N."""
    i = np.arange(n)
    N = 120
    c = [0 * i, 60 * (i % 2), 30 * (i % 4), 40 * ((i * i) % 3), 20 * ((5 * i + 1) % 6), (17 * i + 7 * i * i + 3) % N, 60 * ((i // 2) % 2)][j]
    c = c.copy()
    c[e] = 0
    return c, N


def num_irreps(table, phase, N):
    from mc.exact import num_projective_irreps

    return num_projective_irreps(table, phase, N)


def one(E, rec, name, Q, t, phase, N, methods):
    n = len(Q)
    f = np.exp(2j * np.pi * (phase % N) / N)
    for method in methods:
        nm = f"{name} method={method}"
        out = call(rec, nm, E, Q, f, method=method)
        if out is None:
            continue
        if not np.any((4 * phase) % N):
            # values 1, i, -1, -i written without rounding error, and real ones in real types
            g = np.array([1, 1j, -1, -1j])[(4 * phase // N) % 4]
            forms = [("exact", g)] + ([] if np.any((2 * phase) % N) else [("real", g.real.copy()), ("integer", g.real.astype(int))])
            for form, g in forms:
                alt = call(rec, f"{nm} {form}", E, Q, g, method=method)
                if alt is None:
                    continue
                msg = check_complete(alt[0], t, f, n, num_irreps(t, phase % N, N))
                if msg is None and sorted(map(int, alt[1])) != sorted(map(int, out[1])):
                    msg = f"indicators {list(alt[1])}, for complex numbers {list(out[1])}"
                if msg:
                    rec.violation(f"{nm} {form}", msg)
        rec.model(n, n * n, len(out[0]))
        msg = check_complete(out[0], t, f, n, num_irreps(t, phase % N, N))
        if msg is None and len(out[1]) != len(out[0]):
            msg = f"{len(out[1])} indicators for {len(out[0])} irreps"
        if msg is None:
            real = not np.any((2 * phase) % N)
            want = [int(np.rint(np.einsum("nij,nji->", D, D).real / n)) if real else 0 for D in out[0]]
            if [int(v) for v in out[1]] != want:
                msg = f"indicators {list(out[1])}, expected {want}"
        if msg:
            rec.violation(nm, msg)
            continue
        if np.any(phase % N):
            rec.count("nontrivial")
        rec.sample(f"{nm}: order {n}, dimensions {sorted(x.shape[1] for x in out[0])}")


def spin_phase(Q, t):
    L = lattice_for(Q, "axes")
    U = np.array([expected_lift(L, r) for r in Q])
    w = np.einsum("iab,jbc->ijac", U, U)
    s = np.einsum("ijab,ijab->ij", w, np.conj(U[t])).real / 2
    return np.where(s < 0, 60, 0)


def check(task, rec):
    from spgrep.irreps import enumerate_unitary_irreps as E

    kind, h, R, tier = task
    if kind == "pg":
        R = np.array(R)
        os = orderings(len(R))
        for o, (oname, perm) in enumerate(os if tier == "thorough" else os[:3]):
            Q = R[perm]
            t = group_table(Q)
            e = table_identity(t)
            for fname, base in (("ordinary", 0 * t), ("spin", spin_phase(Q, t))):
                for j in range(NC):
                    c, N = gauge(j, len(Q), e)
                    ph = base + c[:, None] + c[None, :] - c[t]
                    one(E, rec, f"pointgroup of hall={h} order={oname} factor={fname} gauge={j}", Q, t, ph, N, ("Neto", "random"))
        return
    ops = hall_std_primitive(h)
    seen = set()
    ks = dedupe(kgrid(2) + kgrid(3) + (kgrid(4) + kgrid(6) if tier == "thorough" else []))
    for i, k in enumerate(ks):
        li = little_indices(ops, k)
        sub = ops.subset(li)
        m = Model(sub, k)
        kt = (m.T @ m.kk) % m.N
        phase = (m.phase + kt[:, None] + kt[None, :] - kt[m.table]) % m.N
        sig = (tuple(li), (phase * 1000 // m.N).tobytes())
        if sig in seen or not np.any(phase):
            continue
        seen.add(sig)
        e = table_identity(m.table)
        for j in range(NC) if tier == "thorough" else ((i + h) % NC, (i + h + 3) % NC):
            c, N = gauge(j, len(li), e)
            M = int(np.lcm(N, m.N))
            ph = phase * (M // m.N) + (c[:, None] + c[None, :] - c[m.table]) * (M // N)
            one(E, rec, f"hall={h} k={','.join(map(str, k))} gauge={j}", sub.R, m.table, ph, M,
                ("Neto", "random") if tier == "thorough" else (("Neto", "random")[(i + j) % 2],))
