"""C13: symmetry-adapted tensors and their symmetrisation over index permutations."""
from __future__ import annotations

from itertools import permutations
from math import comb

import numpy as np

from mc.gen import cart, lattice_for
from mc.props.c11 import noise
from mc.util import call, classes, orderings

RULE = (
    "one case = (point group, order, Cartesian frame, representation, rank, real or complex); the oracle is the group-averaged "
    "projector on the full tensor space"
)
CHUNK = 1


def bounds(tier):
    return (f"122 rotation sets x ranks 1 to {4 if tier == 'thorough' else 3} (4 for groups of order up to 8, 5 up to {4 if tier == 'thorough' else 2}) x {'5' if tier == 'thorough' else '2'} lattice orientations x "
            "vector, pseudovector, one-dimensional (determinant) and 6-dimensional (vector + pseudovector, ranks 1 and 2) representations x real and complex; "
            "vector representations with noise of 1e-10; symmetrisation of the basis returned, of dense combinations of it, and of tensors all close to one another; symmetrisation of one-hot, dense, antisymmetric and repeated tensors of rank up to 6 or 7 in 1 to 6 dimensions")


def tasks(tier):
    big = tier == "thorough"
    top = {5: 4 if big else 2, 4: 48 if big else 8}
    plain = [("plain", d, r, tier) for d, top in ((1, 7), (2, 6), (3, 6), (4, 4), (6, 3)) for r in range(1, top + (big and d < 4) + 1)]
    return plain[::-1] + [(h, R.tolist(), r, tier) for r in (5, 4, 3, 2, 1) for h, R in classes() if len(R) <= top.get(r, 48)]


def kpow(c, r):
    k = c
    for _ in range(r - 1):
        k = np.kron(k, c)
    return k


def permutation_average(rank, d):
    n = d**rank
    eye = np.eye(n).reshape([n] + [d] * rank)
    return np.mean([np.transpose(eye, [0] + [1 + x for x in p]).reshape(n, n) for p in permutations(range(rank))], axis=0)


def check(task, rec):
    from spgrep.tensor import apply_intrinsic_symmetry as S, get_symmetry_adapted_tensors as T

    if task[0] == "plain":
        plain(S, rec, *task[1:])
        return
    h, R, rank, tier = task
    R = np.array(R)
    averages = {d: permutation_average(rank, d) for d in (1, 3, 6) if d < 6 or rank < 3}
    for oname, perm in orderings(len(R))[: 3 if tier == "thorough" else 2]:
        Q = R[perm]
        n = len(Q)
        det = np.rint(np.linalg.det(Q))
        for ori in ("axes", "generic", "left", "permuted", "flipped") if tier == "thorough" else ("axes", "generic"):
            V = np.array([cart(lattice_for(Q, ori), r) for r in Q])
            P = V * det[:, None, None]
            reps = [("vector", V), ("pseudovector", P), ("determinant", det[:, None, None])]
            if rank < 3:
                reps.append(("vector+pseudovector", np.array([np.block([[a, np.zeros((3, 3))], [np.zeros((3, 3)), b]]) for a, b in zip(V, P)])))
            for rn, C in reps:
                if rn == "pseudovector" and (np.all(det > 0) or (tier == "quick" and ori != "axes")):
                    continue
                if rn == "determinant" and ori != "axes":
                    continue
                sym = averages[C.shape[1]]
                shape = (C.shape[1],) * rank
                proj = np.mean([kpow(c, rank) for c in C], axis=0)
                want = int(np.rint(np.trace(proj)))
                want_sym = int(np.linalg.matrix_rank(proj @ sym, 1e-6)) if want else 0
                for real in (False, True):
                    name = f"pointgroup of hall={h} order={oname} lattice={ori} rep={rn} rank={rank} real={real}"
                    out = call(rec, name, T, C, Q, rank, real=real)
                    if out is None:
                        continue
                    rec.model(n, n * max(1, want), 1)
                    msg = space(out, want, proj, shape, real)
                    if msg is None and out:
                        ss = call(rec, name + " symmetrised", S, [x.copy() for x in out])
                        if ss is None:
                            continue
                        msg = symmetric(ss, want_sym, proj, sym, shape, real)
                        if msg:
                            msg = "symmetrised: " + msg
                    if msg is None and ori == "generic" and rn == "vector" and rank < 4:
                        # the matrices are known only up to rounding of their source
                        noisy = call(rec, name + " noise", T, C + 1e-10 * noise(C.shape), Q, rank, real=real)
                        if noisy is None:
                            continue
                        rec.model(n, n * max(1, want), 1)
                        msg = space(noisy, want, proj, shape, real)
                        if msg:
                            msg = "noise of 1e-10: " + msg
                    if msg is None and out:
                        # the same space given by other bases: dense combinations, and tensors all close to the first one
                        A = np.array([np.asarray(x).reshape(-1) for x in out])
                        for bn, B in (("mixed", mixing(len(A)) @ A), ("close", A[:1] + 0.2 * A * (np.arange(len(A)) > 0)[:, None])):
                            ss = call(rec, f"{name} symmetrised from a {bn} basis", S, [x.reshape(shape) for x in B])
                            rec.model(n, n * max(1, want), 1)
                            if ss is None:
                                continue
                            msg = symmetric(ss, want_sym, proj, sym, shape, real)
                            if msg:
                                msg = f"symmetrised from a {bn} basis: {msg}"
                                break
                    if msg:
                        rec.violation(name, msg)
                        continue
                    if want:
                        rec.count("nontrivial")
                    rec.sample(f"{name}: {want} invariant tensors, {want_sym} symmetric")


def plain(S, rec, d, rank, tier):
    """Tensors of no particular symmetry: one-hot tensors (all of them up to 256), dense ones, one, and antisymmetric ones."""
    sym_dim = comb(d + rank - 1, rank)
    n = d**rank
    shape = (d,) * rank
    perms = list(permutations(range(rank)))
    hot = [np.eye(1, n, i).reshape(shape) for i in (range(n) if n <= 256 else range(0, n, 37))]
    multisets = {tuple(sorted(np.argwhere(x)[0].tolist())) for x in hot}
    dense = np.cos(np.arange(n) * 1.3 + 0.01 * np.arange(n) ** 2).reshape(shape)
    cases = [("one-hot", hot, len(multisets)), ("dense", [dense], 1), ("complex", [dense * np.exp(1j * np.arange(n)).reshape(shape)], 1),
             ("repeated", [dense, 2 * dense, -dense], 1), ("small", [1e-7 * dense], 1), ("none", [], 0)]
    if rank > 1 and d > 1:
        cases.append(("antisymmetric", [dense - np.swapaxes(dense, 0, rank - 1)], 0))
    for nm, ts, want in cases:
        name = f"tensors of rank {rank} in {d} dimensions: {nm}"
        before = [x.copy() for x in ts]
        out = call(rec, name, S, ts)
        rec.model(len(perms), len(perms) * max(1, len(ts)), 1)
        if out is None:
            continue
        msg = None
        if len(out) != want:
            msg = f"{len(out)} tensors, {want} are independent after symmetrisation"
        elif any(not np.array_equal(a, b) for a, b in zip(ts, before)):
            msg = "an argument was changed"
        elif out:
            A = np.array([np.asarray(x).reshape(-1) for x in out])
            for x in out:
                if np.shape(x) != shape or not np.all(np.isfinite(x)) or abs(np.linalg.norm(x)) < 1e-3:
                    msg = f"tensor of shape {np.shape(x)}, norm {np.linalg.norm(x):.3g}"
                elif max(np.abs(np.swapaxes(x, i, i + 1) - x).max() for i in range(rank - 1)) > 1e-9 if rank > 1 else False:
                    msg = "tensor is not invariant under permutations of indices"
            if msg is None and np.linalg.matrix_rank(A, 1e-6) != want:
                msg = "tensors are linearly dependent"
            if msg is None and len(ts) == 1:
                mean = sum(np.transpose(ts[0], p) for p in perms) / len(perms)
                if abs(abs(np.vdot(mean, out[0])) - np.linalg.norm(mean) * np.linalg.norm(out[0])) > 1e-6 * np.linalg.norm(mean):
                    msg = "not the average over permutations of indices"
        if want > sym_dim:
            raise RuntimeError("more tensors than symmetric ones")
        if msg:
            rec.violation(name, msg)
        else:
            rec.count("nontrivial", int(rank > 1))


def mixing(m):
    """Dense orthogonal matrix."""
    return np.linalg.qr(np.cos(np.outer(np.arange(m), np.arange(m))) + np.eye(m))[0]


def symmetric(ss, want, proj, sym, shape, real):
    msg = space(ss, want, proj, shape, real)
    if msg is None and ss:
        A = np.array([np.asarray(x).reshape(-1) for x in ss])
        if np.abs(A @ sym.T - A).max() > 1e-6:
            return "tensor is not invariant under permutations of indices"
    return msg


def space(tensors, want, proj, shape, real):
    if len(tensors) != want:
        return f"{len(tensors)} tensors, the space of invariants has dimension {want}"
    if not tensors:
        return None
    for x in tensors:
        if np.shape(x) != shape or not np.all(np.isfinite(x)):
            return f"tensor of shape {np.shape(x)}"
        if real and np.iscomplexobj(x):
            return "complex tensor although real=True"
    A = np.array([np.asarray(x).reshape(-1) for x in tensors])
    x = np.abs(A @ proj.T - A).max()
    if not x < 1e-6:
        return f"tensor is not invariant under the group ({x:.3g})"
    if np.linalg.matrix_rank(A, 1e-3) != want:
        return "tensors are linearly dependent"
    return None
