"""Calling the implementation, and comparing representations up to equivalence."""
from __future__ import annotations

import itertools
import warnings
from functools import lru_cache

import numpy as np

from mc.exact import key
from mc.gen import arithmetic_classes
from mc.reps import chars


def call(rec, name, fn, *a, **kw):
    """Result of fn(*a, **kw), or None after recording a violation (exception or UserWarning)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = fn(*a, **kw)
        except Exception as e:
            rec.violation(name, f"raised {e!r}"[:300])
            return None
    bad = user_warnings(w)
    if bad:
        rec.violation(name, f"warning: {bad[-1]}"[:300])
        return None
    return out


def user_warnings(w):
    return [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def fmt(k):
    return ",".join(str(x) for x in k)


def group_table(R, tr=None):
    idx = {(key(r), 0 if tr is None else int(tr[i])): i for i, r in enumerate(R)}
    n = len(R)
    t = np.empty((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            a = 0 if tr is None else int(tr[i]) ^ int(tr[j])
            t[i, j] = idx[(key(R[i] @ R[j]), a)]
    return t


def same_up_to_equivalence(A, B, tol=1e-4):
    """None if the lists of irreps A and B coincide up to order and equivalence, else a message."""
    if len(A) != len(B):
        return f"{len(A)} representations against {len(B)}"
    if sorted(x.shape[1] for x in A) != sorted(x.shape[1] for x in B):
        return f"dimensions {sorted(x.shape[1] for x in A)} against {sorted(x.shape[1] for x in B)}"
    g = np.conj(chars(A)) @ chars(B).T / A[0].shape[0]
    p = np.rint(np.abs(g))
    if np.abs(g - p).max() > tol or not np.all(p.sum(0) == 1) or not np.all(p.sum(1) == 1):
        return "no one-to-one match of characters"
    return None


@lru_cache(maxsize=None)
def classes():
    """The distinct primitive point groups of the 530 Hall settings: list of (hall, rotations)."""
    return sorted(arithmetic_classes().values(), key=lambda x: x[0])


@lru_cache(maxsize=None)
def unimodular():
    U = np.array(list(itertools.product((-1, 0, 1), repeat=9))).reshape(-1, 3, 3)
    d = np.rint(np.linalg.det(U)).astype(int)
    return U[np.abs(d) == 1]


def conjugates(R, max_entry=None):
    """All distinct groups U^-1 R U with U unimodular and entries in {-1, 0, 1}; yields (U, rotations)."""
    seen = set()
    R = np.asarray(R)
    for u in unimodular():
        ui = np.rint(np.linalg.inv(u)).astype(int)
        Q = np.einsum("ab,nbc,cd->nad", ui, R, u)
        if max_entry is not None and np.abs(Q).max() > max_entry:
            continue
        k = Q.reshape(len(Q), 9)
        s = k[np.lexsort(k.T)].tobytes()
        if s in seen:
            continue
        seen.add(s)
        yield u, Q


def num_classes(table):
    n = len(table)
    inv = np.argmax(table == table_identity(table), axis=1)
    seen, c = np.zeros(n, bool), 0
    for g in range(n):
        if not seen[g]:
            c += 1
            seen[table[table[np.arange(n), g], inv]] = True
    return c


def table_identity(table):
    n = len(table)
    return next(i for i in range(n) if np.array_equal(table[i], np.arange(n)))


def orderings(n):
    """Names and permutations: identity, reversal, every cyclic shift, strides coprime to n."""
    out = [("as-listed", list(range(n)))]
    if n > 1:
        out.append(("reversed", list(range(n))[::-1]))
        for s in range(1, n):
            out.append((f"shift{s}", [(i + s) % n for i in range(n)]))
        for m in (5, 7, 11):
            if np.gcd(m, n) == 1 and m < n:
                out.append((f"stride{m}", [(i * m + 2) % n for i in range(n)]))
    return out


def refused(rec, name, fn, kinds=(ValueError,)):
    rec.model(1, 1)
    try:
        out = fn()
    except kinds:
        rec.count("nontrivial")
        return True
    except Exception as e:
        rec.violation(name, f"raises {e!r}"[:200] + f" instead of {kinds[0].__name__}")
        return False
    rec.violation(name, f"answered with {str(out)[:80]}".replace("\n", " "))
    return False


def mismatches(orders=(1, 2, 3, 4, 6), dims=(1, 2, 3)):
    """Pairs of shapes (order, a, b) that are not those of two representations of one group."""
    import itertools

    for n1, a, b, n2, c, d in itertools.product(orders, dims, dims, orders, dims, dims):
        if not (n1 == n2 and a == b and c == d) and (a == b or n1 == n2) and (c == d or n1 == n2):
            yield (n1, a, b), (n2, c, d)


def skewed(R, single=(5, 13, 34, 100), double=(3, 8, 21)):
    """R in bases made by one or two successive shears, with long and nearly parallel axes."""
    axes = [(i, j) for i in range(3) for j in range(3) if i != j]

    def shear(i, j, n):
        E = np.eye(3, dtype=int)
        E[i, j] = n
        return E

    ms = [(shear(i, j, n), shear(i, j, -n)) for n in single for i, j in axes]
    ms += [(shear(i, j, n) @ shear(j, i, n + 1), shear(j, i, -n - 1) @ shear(i, j, -n)) for n in double for i, j in axes]
    ms += [(shear(i, j, n) @ shear(j, 3 - i - j, -n), shear(j, 3 - i - j, n) @ shear(i, j, -n)) for n in double for i, j in axes]
    for m, mi in ms:
        yield m, np.einsum("ab,nbc,cd->nad", mi, R, m)
