"""All finite solvable groups of small order as multiplication tables, and their 2-cocycle classes."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np

# number of groups of order 1..31 (OEIS A000001): the construction below is checked against it
NUM_GROUPS = (1, 1, 1, 2, 1, 2, 1, 5, 2, 2, 1, 5, 1, 2, 1, 14, 1, 5, 1, 5, 2, 2, 1, 15, 2, 2, 5, 4, 1, 4, 1)


def inverses(t):
    return np.argmax(t == 0, axis=1)


def orders(t):
    n = len(t)
    out = np.ones(n, dtype=int)
    x = np.arange(n)
    y = x.copy()
    while np.any(y != 0):
        out += y != 0
        y = np.where(y != 0, t[y, x], 0)
    return out


def generated(t, gens):
    s, todo = {0}, [0]
    while todo:
        new = []
        for x in todo:
            for g in gens:
                y = int(t[x, g])
                if y not in s:
                    s.add(y)
                    new.append(y)
        todo = new
    return frozenset(s)


def invariant(t):
    o = orders(t)
    x = np.arange(len(t))
    sq = t[x, x]
    cent = (t == t.T).sum(1)
    roots = np.bincount(sq, minlength=len(t))
    return tuple(sorted(zip(o, cent, o[sq], cent[sq], roots)))


def min_gens(t):
    o = orders(t)
    gens, s = [], frozenset([0])
    while len(s) < len(t):
        best = max((i for i in range(len(t)) if i not in s), key=lambda i: (len(generated(t, gens + [i])), -i))
        gens.append(best)
        s = generated(t, gens)
    return gens


def homs(t, u, first_only=False):
    """All isomorphisms t -> u as index arrays."""
    n = len(t)
    gens = min_gens(t)
    ot, ou = orders(t), orders(u)
    out = []
    # words: every element as product of generators
    word = {0: ()}
    todo = [0]
    while todo:
        new = []
        for x in todo:
            for gi, g in enumerate(gens):
                y = int(t[x, g])
                if y not in word:
                    word[y] = word[x] + (gi,)
                    new.append(y)
        todo = new
    for img in itertools.product(*[[j for j in range(n) if ou[j] == ot[g]] for g in gens]):
        m = np.zeros(n, dtype=int)
        for x, w in word.items():
            y = 0
            for gi in w:
                y = u[y, img[gi]]
            m[x] = y
        if len(set(m.tolist())) == n and np.array_equal(m[t], u[m[:, None], m[None, :]]):
            out.append(m)
            if first_only:
                break
    return out


@lru_cache(maxsize=None)
def automorphisms(n, i):
    t = groups(n)[i]
    return homs(t, t)


@lru_cache(maxsize=None)
def groups(n):
    """Multiplication tables (identity = 0) of all solvable groups of order n, up to isomorphism."""
    if n == 1:
        return [np.zeros((1, 1), dtype=int)]
    found = {}
    out = []
    for p in range(2, n + 1):
        if n % p or any(p % q == 0 for q in range(2, p)):
            continue
        for k, N in enumerate(groups(n // p)):
            m = n // p
            inv = inverses(N)
            seen = set()
            for s in automorphisms(m, k):
                power = np.arange(m)
                pows = [power]
                for _ in range(p):
                    power = s[power]
                    pows.append(power)
                for a in range(m):
                    if s[a] != a or not np.array_equal(pows[p], N[N[a], inv[a]]):
                        continue
                    t = np.empty((n, n), dtype=int)
                    for i in range(p):
                        for j in range(p):
                            blk = N[np.arange(m)[:, None], pows[i][None, :]]
                            if i + j >= p:
                                blk = N[blk, a]
                            t[i * m : (i + 1) * m, j * m : (j + 1) * m] = blk + m * ((i + j) % p)
                    sig = invariant(t)
                    if any(homs(t, u, True) for u in found.get(sig, [])):
                        continue
                    found.setdefault(sig, []).append(t)
                    out.append(t)
    return out


def relabel(t, perm):
    """Table of the same group with element perm[i] listed at place i."""
    perm = np.asarray(perm)
    inv = np.empty(len(perm), dtype=int)
    inv[perm] = np.arange(len(perm))
    return inv[t[perm[:, None], perm[None, :]]]


def _solve(rows, nvar, p):
    """Basis of the solutions modulo p of sparse homogeneous equations [(var, coefficient), ...]."""
    piv = {}
    for r in rows:
        v = {}
        for i, c in r:
            v[i] = (v.get(i, 0) + c) % p
        v = {i: c for i, c in v.items() if c}
        while v:
            i = min(v)
            if i not in piv:
                inv = pow(v[i], -1, p)
                piv[i] = {j: c * inv % p for j, c in v.items()}
                break
            f = v[i]
            for j, c in piv[i].items():
                x = (v.get(j, 0) - f * c) % p
                if x:
                    v[j] = x
                else:
                    v.pop(j, None)
    free = [i for i in range(nvar) if i not in piv]
    basis = []
    for f in free:
        x = np.zeros(nvar, dtype=int)
        x[f] = 1
        for i in sorted(piv, reverse=True):
            x[i] = -sum(c * x[j] for j, c in piv[i].items() if j != i) % p
        basis.append(x)
    return basis


def cocycle_classes(t, p, limit=16):
    """Normalised 2-cocycles with values in Z_p (as n x n arrays), one for each of the first ``limit``
    classes modulo Z_p coboundaries; the first is zero."""
    n = len(t)
    var = lambda i, j: (i - 1) * (n - 1) + j - 1
    seen, rows = set(), []
    for i in range(1, n):
        for j in range(1, n):
            for k in range(1, n):
                r = [((i, int(t[j, k])), 1), ((j, k), 1), ((int(t[i, j]), k), -1), ((i, j), -1)]
                r = [(var(*a), c) for a, c in r if a[0] and a[1]]
                rows.append(r)
    sol = _solve(rows, (n - 1) ** 2, p)
    # reduce modulo coboundaries
    cob = []
    for g in range(1, n):
        c = np.zeros(n, dtype=int)
        c[g] = 1
        d = (c[:, None] + c[None, :] - c[t])[1:, 1:].reshape(-1) % p
        cob.append(d)
    ech = {}

    def reduce(v):
        v = v.copy() % p
        while True:
            nz = np.nonzero(v)[0]
            for i in nz:
                if i in ech:
                    v = (v - v[i] * ech[i]) % p
                    break
            else:
                return v

    def insert(v):
        v = reduce(v)
        nz = np.nonzero(v)[0]
        if len(nz) == 0:
            return False
        i = nz[0]
        v = v * pow(int(v[i]), -1, p) % p
        for j in list(ech):
            if ech[j][i]:
                ech[j] = (ech[j] - ech[j][i] * v) % p
        ech[i] = v
        return True

    for d in cob:
        insert(d)
    rep = [v for v in sol if insert(v)]
    out = []
    for co in itertools.product(range(p), repeat=len(rep)):
        v = np.zeros((n - 1) ** 2, dtype=int)
        for c, r in zip(co, rep):
            v = (v + c * r) % p
        w = np.zeros((n, n), dtype=int)
        w[1:, 1:] = v.reshape(n - 1, n - 1)
        out.append(w)
        if len(out) == limit:
            break
    return out


def chains(t, per_step, limit):
    """Lists of generators (outermost first, as the library expects): the last generates a cyclic
    group, each earlier one has prime order p and extends a normal subgroup of index p."""
    n = len(t)
    o = orders(t)
    inv = inverses(t)
    prime = lambda p: p > 1 and all(p % q for q in range(2, p))
    out = []

    def grow(sub, gens):
        if len(out) >= limit:
            return
        if len(sub) == n:
            out.append([int(g) for g in gens[::-1]])
            return
        used = {}
        for r in range(n):
            if r in sub:
                continue
            if len(sub) > 1 and not prime(int(o[r])):
                continue
            if any(int(t[t[r, s], inv[r]]) not in sub for s in sub):
                continue
            new = generated(t, list(sub) + [r])
            if len(new) != len(sub) * o[r]:
                continue
            used[new] = used.get(new, 0) + 1
            if used[new] <= per_step:
                grow(new, gens + [r])

    grow(frozenset([0]), [])
    return out
