"""C23: elementary numerical helpers agree with their definitions."""
from __future__ import annotations

import itertools

import numpy as np

from mc.exact import hall_conventional
from mc.util import call

RULE = "one case = one argument of one helper; compared with the definition evaluated another way"
CHUNK = 1


def bounds(tier):
    return (f"primality of all integers up to {20000 if tier == 'quick' else 60000}, products of two primes below {1000 if tier == 'quick' else 3000} and pseudoprimes; roots of exp(2 pi i p/q) r for q <= {24 if tier == 'quick' else 48}, orders <= 24, 5 moduli; all pairs of coordinate "
            "subspaces of dimension <= 3 in C^5 rotated by principal angles from a grid, two dense bases of each; mode products of tensors of ranks 1-4 with distinct "
            "dimensions; integrality tests on a grid of offsets; symmetry operations of 530 Hall numbers; purification of all entries on a grid of offsets; angle and axis of rotations about all axes with components up to 3 by multiples of 15 degrees, 1 and 179 degrees and their supplements")


def tasks(tier):
    out = [("prime", i, tier) for i in range(8)] + [("mode", None, tier), ("integer", None, tier), ("purify", None, tier), ("axis", None, tier)]
    out += [("root", n, tier) for n in range(1, 25)]
    out += [("grass", (a, b), tier) for a in range(1, 4) for b in range(1, 4)]
    out += [("hall", i, tier) for i in range(10)]
    return out


# Carmichael numbers, strong pseudoprimes to the first bases
PSEUDO = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401,
          172081, 188461, 252601, 278545, 294409, 314821, 825265, 321197185, 2047, 1373653, 25326001, 3215031751]


def sieve(n):
    p = np.ones(n + 1, bool)
    p[:2] = False
    for i in range(2, int(n**0.5) + 1):
        if p[i]:
            p[i * i :: i] = False
    return p


def dense(n, m):
    """Fixed m x m unitary (or invertible, n=1) matrices without zeros."""
    j = np.arange(m)
    if n == 0:
        return np.exp(2j * np.pi * (np.outer(j, j) / m + np.outer(j * j, np.ones(m)) / 7)) / np.sqrt(m)
    return np.eye(m) * 2 + 0.3 * np.cos(np.outer(j + 1, j + 2)) + 0.2j * np.sin(np.outer(j + 1, 2 * j + 1))


def check(task, rec):
    kind, arg, tier = task
    from spgrep import utils as u

    if kind == "axis":
        from spgrep.spinor import get_rotation_angle_and_axis

        angles = sorted({15 * j for j in range(25)} | {1, 179, 181, 359})
        for v in itertools.product(range(-3, 4), repeat=3):
            if np.gcd.reduce(v) != 1:
                continue
            n = np.array(v) / np.linalg.norm(v)
            K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
            for a in angles:
                x = np.pi * a / 180
                R = np.eye(3) + np.sin(x) * K + (1 - np.cos(x)) * K @ K
                name = f"rotation by {a} degrees about {v}"
                got = call(rec, name, get_rotation_angle_and_axis, R)
                if got is None:
                    continue
                rec.model(1, 1)
                rec.count("nontrivial", a % 360 != 0)
                th, m = float(got[0]), np.asarray(got[1], dtype=float)
                K2 = np.array([[0, -m[2], m[1]], [m[2], 0, -m[0]], [-m[1], m[0], 0]])
                if not (-1e-9 <= th <= np.pi + 1e-9 and abs(np.linalg.norm(m) - 1) < 1e-6):
                    rec.violation(name, f"angle {th}, axis {m}")
                elif np.abs(np.eye(3) + np.sin(th) * K2 + (1 - np.cos(th)) * K2 @ K2 - R).max() > 1e-6:
                    rec.violation(name, f"angle {th}, axis {m} is another rotation")
        return
    if kind == "prime":
        top = 20000 if tier == "quick" else 60000
        p = sieve(top)
        factors = np.flatnonzero(p[: 1000 if tier == "quick" else 3000])
        composite = [int(a) * int(b) for i, a in enumerate(factors) for b in factors[i:]] + PSEUDO
        for i in range(arg, top + 1, 8):
            got = call(rec, f"is_prime({i})", u.is_prime, i)
            rec.model(1, 1)
            if got is not None and bool(got) != bool(p[i]):
                rec.violation(f"is_prime({i})", f"{got}")
        for i in composite[arg::8]:
            got = call(rec, f"is_prime({i})", u.is_prime, i)
            rec.model(1, 1)
            if got is not None and bool(got):
                rec.violation(f"is_prime({i})", f"{got}, but it is composite")
        rec.count("nontrivial", int(p[arg::8].sum()))
        rec.sample(f"{int(p.sum())} primes up to {top}")
    elif kind == "root":
        n = arg
        for q in range(1, (24 if tier == "quick" else 48) + 1):
            for p in range(q):
                for r in (1.0, 2.5, 0.3, 1e-6, 1e6):
                    z = np.complex128(r * np.exp(2j * np.pi * p / q))
                    name = f"nroot({r} exp(2 pi i {p}/{q}), {n})"
                    w = call(rec, name, u.nroot, z, n)
                    rec.model(1, 1)
                    if w is None:
                        continue
                    if not abs(w**n - z) < 1e-9 * r or abs(abs(w) - r ** (1 / n)) > 1e-9 * r ** (1 / n):
                        rec.violation(name, f"{w} is not a root")
                    elif abs(np.angle(w)) > np.pi / n + 1e-7:
                        rec.violation(name, f"angle {np.angle(w):.6g} is not the smallest")
                    rec.count("nontrivial", int(n > 1 and p > 0))
        for z in (-1, 1, 0, -8, 5, -1.0, 0.0, 2.5, -0.3, np.float64(-4), np.int64(-27), np.int8(-1), np.float32(-0.5), 1j, -2 - 1j, np.complex64(-1j)):
            name = f"nroot({type(z).__name__} {z}, {n})"
            w = call(rec, name, u.nroot, z, n)
            rec.model(1, 1)
            if w is None:
                continue
            if not abs(complex(w) ** n - complex(z)) < 1e-5 * max(1, abs(z)):
                rec.violation(name, f"{w} is not a root")
            elif abs(np.angle(w)) > np.pi / n + 1e-7:
                rec.violation(name, f"angle {np.angle(w):.6g} is not the smallest")
        rec.sample(f"roots of order {n}")
    elif kind == "grass":
        a, b = arg
        N = 5 if a + b <= 5 else 6
        angles = [0.0, np.pi / 6, np.pi / 4, np.pi / 3, np.pi / 2]
        m = min(a, b)
        W = dense(0, N)
        for th in itertools.combinations_with_replacement(angles, m):
            # principal angles th between span(e_1..e_a) and the rotated subspace
            A = np.eye(N)[:a].astype(complex)
            B = np.zeros((b, N), complex)
            ok = True
            nxt = a
            for i in range(b):
                if i < m:
                    B[i, i] = np.cos(th[i])
                    if nxt < N:
                        B[i, nxt] = np.sin(th[i])
                    elif th[i] != 0:
                        ok = False
                else:
                    if nxt >= N:
                        ok = False
                    else:
                        B[i, nxt] = 1
                nxt += 1
            if not ok:
                continue
            want = {"min": np.sin(max(th)), "projection": np.sqrt(np.mean(np.array(th) ** 2))}
            for s in range(4):
                X, Y = A @ W, B @ W
                if s & 1:
                    X = dense(1, a) @ X
                if s & 2:
                    Y = dense(1, b) @ Y
                for o in want:
                    for skip in (False, True):
                        if skip and s:
                            continue
                        name = f"grassmann_distance dims={a},{b} angles={np.round(th, 4).tolist()} bases={s} ord={o} skip={skip}"
                        d = call(rec, name, u.grassmann_distance, X, Y, ord=o, skip_orthonormalization=skip)
                        rec.model(1, 1)
                        if d is None:
                            continue
                        if not abs(d - want[o]) < 2e-6:
                            rec.violation(name, f"{d}, principal angles give {want[o]}")
                        d2 = call(rec, name, u.grassmann_distance, Y, X, ord=o, skip_orthonormalization=skip)
                        if d2 is not None and not abs(d2 - want[o]) < 2e-6:
                            rec.violation(name + " exchanged", f"{d2}, principal angles give {want[o]}")
                        rec.count("nontrivial")
        if (a, b) == (1, 1):
            try:
                u.grassmann_distance(np.eye(2)[:1], np.eye(2)[1:], ord="max")
                rec.violation("grassmann_distance ord=max", "no error for an unknown kind")
            except ValueError:
                pass
        rec.sample(f"subspaces of dimensions {a}, {b} in C^{N}")
    elif kind == "mode":
        for p in range(1, 5):
            for m in (1, 2, 3):
                for ns in itertools.product((1, 2, 4), repeat=p):
                    for real in (True, False):
                        T = np.cos(np.arange(m**p) * 1.7 + 0.3).reshape((m,) * p)
                        M = [np.sin(np.arange(m * q).reshape(m, q) * 0.9 + i) for i, q in enumerate(ns)]
                        if not real:
                            T = T * np.exp(1j * np.arange(m**p)).reshape(T.shape)
                            M = [x * np.exp(0.5j * np.arange(x.size)).reshape(x.shape) for x in M]
                        name = f"mode_dot rank={p} m={m} n={ns} real={real}"
                        T0 = T.copy()
                        got = call(rec, name, u.mode_dot, T, M)
                        rec.model(1, p)
                        letters = "abcd"[:p]
                        want = np.einsum(letters + "," + ",".join(x + x.upper() for x in letters) + "->" + letters.upper(), T, *M)
                        if got is None:
                            continue
                        if np.shape(got) != ns or not np.abs(got - want).max() < 1e-9:
                            rec.violation(name, "differs from the sum over all indices")
                        if not np.array_equal(T, T0):
                            rec.violation(name, "changes the tensor")
                        rec.count("nontrivial", int(p > 1))
        rec.sample("ranks 1 to 4")
    elif kind == "integer":
        for base in (-5, -1, 0, 1, 2, 7, 100):
            for off in (0, 1e-12, 1e-10, -1e-10, 1e-3, -1e-3, 0.25, 0.5, -0.5, 0.75, 0.999):
                if min(abs(off), abs(1 - off)) > 1e-9 and min(abs(off), abs(1 - off)) < 3e-5 * abs(base):
                    continue  # inside the documented relative tolerance
                for shape in ((1,), (3,), (3, 3)):
                    x = np.full(shape, float(base))
                    x.flat[-1] += off
                    want = abs(off) < 1e-9
                    name = f"is_integer_array({base} + {off}, shape {shape})"
                    got = call(rec, name, u.is_integer_array, x)
                    rec.model(1, 1)
                    if got is not None and bool(got) != want:
                        rec.violation(name, f"{got}")
                    tight = abs(off) < 1e-9
                    y = np.full((2, 3), float(base))
                    y[1, 2] += off if tight else 0
                    tup = call(rec, name, u.ndarray2d_to_integer_tuple, y)
                    if tup is not None and tup != tuple((base,) * 3 for _ in range(2)):
                        rec.violation(name, f"integer tuple {tup}")
                    rec.count("nontrivial", int(off != 0))
        # tolerances of the caller, entries of any size, one entry off at every place
        for base in (0, 1, -3, 1000, 10**6):
            for rtol, atol in ((0, 1e-3), (0, 1e-6), (0, 0.0), (1e-3, 0), (1e-5, 1e-8)):
                for off in (0, 5e-10, 5e-7, 2e-6, 5e-4, 2e-3, 0.02, 0.3):
                    room = atol + rtol * abs(base)
                    if 0.4 * room < abs(off) < 2.5 * room:
                        continue
                    for place in range(6):
                        x = np.full((2, 3), float(base))
                        x.flat[place] += off
                        real_off = abs(x.flat[place] - np.rint(x.flat[place]))
                        if (real_off == 0) != (off == 0) or 0.4 * room < real_off < 2.5 * room:
                            continue
                        name = f"is_integer_array({base} + {off} at {place}, rtol={rtol}, atol={atol})"
                        got = call(rec, name, u.is_integer_array, x, rtol=rtol, atol=atol)
                        rec.model(1, 1)
                        if got is not None and bool(got) != (real_off <= room):
                            rec.violation(name, f"{got}")
        for n, m in ((1, 1), (1, 4), (4, 1), (3, 3)):
            for big in (3, 10**4, 10**9):
                x = (np.arange(n * m).reshape(n, m) - 2) * big
                for y in (x, x.astype(float), x + 0.4 * (big > 3) / big):
                    name = f"ndarray2d_to_integer_tuple shape=({n},{m}) entries={big} type={y.dtype}"
                    got = call(rec, name, u.ndarray2d_to_integer_tuple, y)
                    rec.model(1, 1)
                    if got is not None and got != tuple(tuple(int(v) for v in row) for row in x):
                        rec.violation(name, f"{got}")
        rec.sample("offsets from 1e-12 to 1")
    elif kind == "purify":
        from spgrep.irreps import purify_irrep_value as PC, purify_real_irrep_value as PR

        s3 = np.sqrt(3) / 2
        cvals = [0] + [np.exp(2j * np.pi * p / 12) for p in (0, 2, 3, 4, 6, 8, 9, 10)]
        rvals = [0, 1, 0.5, s3, -0.5, -s3, -1]
        for which, fn, vals in (("complex", PC, cvals), ("real", PR, rvals)):
            for v in vals:
                for eps in (0, 1e-10, 5e-9, -5e-9, 1e-6, 0.1):
                    for direction in (1, 1j) if which == "complex" else (1,):
                        for shape in ((1, 1, 1), (2, 2, 2)):
                            x = np.zeros(shape, complex if which == "complex" else float) + 0.37
                            x.flat[-1] = v + eps * direction
                            ref = x.copy()
                            name = f"purify {which} {v:.4g} + {eps * direction:.3g} shape={shape}"
                            got = call(rec, name, fn, x)
                            rec.model(1, 1)
                            if got is None:
                                continue
                            want = ref.copy()
                            if abs(eps) < 8e-9:
                                want.flat[-1] = v
                            if not np.abs(got - want).max() <= (1e-15 if abs(eps) < 8e-9 else 1e-12):
                                rec.violation(name, f"gives {got.flat[-1]}")
                            rec.count("nontrivial", int(eps != 0))
        rec.sample("values 0, sixth and fourth roots of unity, +-1/2, +-sqrt(3)/2")
    else:
        for h in range(1 + arg, 531, 10):
            out = call(rec, f"hall={h}", u.get_symmetry_from_hall_number, h)
            ops = hall_conventional(h)
            rec.model(len(ops), len(ops))
            if out is None:
                continue
            R, t = out
            if not np.array_equal(R, ops.R) or not np.abs(t - ops.floats()[1]).max() < 1e-8:
                rec.violation(f"hall={h}", "operations differ from the database")
            rec.count("nontrivial")
        rec.sample(f"Hall numbers {1 + arg}, {11 + arg}, ...")
