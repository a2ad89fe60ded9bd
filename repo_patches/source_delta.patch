From 8a7c661a4a0ff6156768b1aaf860c93a434c3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 01/26] fix: detect type-I groups in
 decompose_by_maximal_space_subgroup

A type-I magnetic space group has no time-reversal operation, but the test
looked for groups where every operation has one, so type-I input crashed
instead of returning None as documented.
---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..3bcc92a 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -224,7 +224,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 409c2fa6ab80d3c25244bb3277ea168f85da06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 02/26] fix: map to the unique list in
 unique_primitive_symmetry

The mapping of the first operation with a given rotation was its index in the
input, which only agrees with its index in the unique list when all duplicates
come last.
---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..4e917b1 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(rotations_int)
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From 186a0436f19fc8563a68c1eca9e3d844cbb0cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 03/26] fix: is_prime(0) and is_prime(1) are False

---
 src/spgrep/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..55e8495 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -48,6 +48,8 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
 
 def is_prime(n: int) -> bool:
     """Return true if given number is prime."""
+    if n < 2:
+        return False
     for i in range(2, n):
         if n % i == 0:
             return False
-- 
2.43.0


From fa3c3b8b299cd74baae72ca8b2e02e578b5ef103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 04/26] fix: raise when a point group cannot be matched with
 the tabulated ones

The exception was created but not raised, so an empty list of generators was
returned for a non-trivial group.
---
 src/spgrep/pointgroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..73c61b2 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -714,5 +714,4 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
             generators = get_generators(pg_symbol, idx)
             return [mapping[g] for g in generators]
 
-    ValueError("Failed to match with tabulated point groups.")
-    return []  # This line is unreachable, just for persuading mypy!
+    raise ValueError("Failed to match with tabulated point groups.")
-- 
2.43.0


From 3c866868ccad449f7bae7ca4664888a62d967db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 05/26] fix: is_matrix_group also checks columns of the
 multiplication table

Sets of singular matrices such as {[[1,0],[0,0]], [[1,1],[0,0]]} (padded to
3x3) have permutation rows without being a group.
---
 src/spgrep/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 3bcc92a..484038c 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -89,10 +89,10 @@ def is_matrix_group(rotations: NDArrayInt) -> bool:
     except ValueError:
         return False
 
-    # Check if each element appears only once in a row
+    # Check if each element appears only once in a row and in a column
     order = rotations.shape[0]
     for i in range(order):
-        if set(table[i]) != set(range(order)):
+        if set(table[i]) != set(range(order)) or set(table[:, i]) != set(range(order)):
             return False
 
     return True
-- 
2.43.0


From d8ebf7249a61c20a30061df62109c6a110dea605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 06/26] fix: match point groups given in a skewed basis

spglib.get_pointgroup only looks for axes with small indices, so for primitive
cells whose rotation matrices have entries beyond -1, 0, 1 the 'Neto' method
failed (LinAlgError: Singular matrix). Match the group in a reduced basis then.
---
 src/spgrep/pointgroup.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 73c61b2..aaa7684 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import numpy as np
-from spglib import get_pointgroup
+from spglib import get_pointgroup, niggli_reduce
 
 from spgrep.utils import NDArrayInt, ndarray2d_to_integer_tuple
 
@@ -678,6 +678,20 @@ def _get_generators(pg_symbol, idx, gens):
     return _get_generators(next_pg_symbol, next_idx, gens)
 
 
+def _get_reduced_basis(prim_rotations: NDArrayInt) -> NDArrayInt:
+    """Return basis transformation to a reduced cell if given basis is skewed.
+
+    Spglib searches for rotation axes with small indices, and they are not found in a skewed basis.
+    """
+    if np.max(np.abs(prim_rotations)) <= 1:
+        return np.eye(3, dtype=int)
+
+    # Niggli reduction for a metric tensor invariant under given point group
+    metric = np.sum([r.T @ r for r in prim_rotations], axis=0)
+    lattice = np.linalg.cholesky(metric)  # lattice @ lattice.T == metric
+    return np.around(np.linalg.inv(lattice.T) @ niggli_reduce(lattice).T).astype(int)
+
+
 def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
     r"""Calculate generators of given crystallographic point group in primitive basis.
 
@@ -693,7 +707,12 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
         Let :math:`G_{0} := G` and :math:`G_{i} := G_{i-1} / \langle` ``solvable_chain_generators[i]`` :math:`\rangle` (i = 0, 1, ...).
         Then, :math:`G_{i}` is normal subgroup of :math:`G_{i-1}` and factor group :math:`G_{i-1}/G_{i}` is Abelian.
     """
-    pg_symbol, _, P = get_pointgroup(prim_rotations)
+    basis = _get_reduced_basis(prim_rotations)
+    basis_inv = np.linalg.inv(basis)
+    pg_symbol, _, P = get_pointgroup(
+        np.array([np.around(basis_inv @ r @ basis).astype(int) for r in prim_rotations])
+    )
+    P = basis @ P
     Pinv = np.linalg.inv(P)
 
     # Match given crystallographic point group with standardized ones in primitive basis.
-- 
2.43.0


From 977fe3ad0ee40e1d0748620fd62490305088e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 07/26] fix: real irreps of real type must be orthogonal
 representations

get_physically_irrep multiplied with T^-1 where T is needed (documented rule
Gamma U = U Gamma^* gives a real T^-1 Gamma T for T^2 = U), and used
non-orthogonal eigenvectors when U has degenerate eigenvalues. Real irreps of
dimension two and larger were then neither orthogonal nor representations.
---
 src/spgrep/irreps.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..f6c9e77 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -596,21 +596,17 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # Real and imaginary parts of symmetric unitary matrix are commuting real symmetric matrices.
+        # Thus, eigenvectors of their generic linear combination diagonalize U, and they are real
+        # and orthonormal even if U has degenerate eigenvalues.
+        _, S = np.linalg.eigh(np.real(U) + np.sqrt(2) * np.imag(U))
+        eigvals = np.diag(S.T @ U @ S)
 
         # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        # T^-1 @ irrep @ T is real because irrep @ T^2 = T^2 @ conj(irrep)
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From f78086bc72c4278adba7039f2d1a72aef7c15cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 08/26] fix: Frobenius-Schur indicators of small
 representations vanish unless 2k = 0

enumerate_small_representations(real=False) left out the sum over translations,
which was only taken into account for real=True.
---
 src/spgrep/irreps.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index f6c9e77..e730889 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,15 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # summation over translations becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.array(kpoint)
+    two_kpoint = two_kpoint - np.rint(two_kpoint)
+    is_conj_kpoint = np.allclose(two_kpoint, 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_conj_kpoint else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,13 +131,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
-
+        indicator = frobenius_schur_indicator(irrep) if is_conj_kpoint else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From 8b64e6c86c92b4625c08c3b0014518df59fc9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 09/26] fix: co-representation matrices of antiunitary
 operations

Gamma(a0) Gamma(u)^* = omega(a0, u) Gamma(a0 u) needs the complex conjugate of
Gamma(u), and both diagonal blocks for indicator -1 are the same irrep because
the second half of the basis is transformed with the intertwiner.
---
 src/spgrep/corep.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..9e7ff51 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,16 +189,18 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 245517a23f587dfad55a8f76f0776aa0d86dde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 10/26] fix: antiunitary operations reverse the k vector in
 co-representations

An operation combined with time reversal belongs to the little group of k when
it maps k to -k, and its non-symmorphic factor is exp(-i (S^-1 k + k).w). Both
were treated as for unitary operations, which is wrong unless 2k = 0.
---
 src/spgrep/core.py  |  2 +-
 src/spgrep/corep.py |  1 +
 src/spgrep/group.py | 19 +++++++++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..4166115 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -543,7 +543,7 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 9e7ff51..13fa71d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -108,6 +108,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 484038c..481d335 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -110,6 +111,7 @@ def get_factor_system_from_little_group(
        = \exp \left( -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} \right) D^{\mathbf{k}}_{p}(S_{k})
 
     where :math:`S_{i}S_{j} = S_{k}` and :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} - \mathbf{k}`.
+    For anti-linear operations, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}`.
 
     Parameters
     ----------
@@ -118,6 +120,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        If specified, operations with ``little_time_reversals[i] == 1`` are anti-linear.
 
     Returns
     -------
@@ -129,7 +133,10 @@ def get_factor_system_from_little_group(
     residuals = np.zeros((n, 3))
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
-        residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i] == 1:
+            residuals[i] = rotation.T @ kpoint + kpoint
+        else:
+            residuals[i] = rotation.T @ kpoint - kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +151,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +160,10 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+        Absolute tolerance to compare kpoints
+    time_reversals: (Optional) array[int], (order, )
+        If specified, operations with ``time_reversals[i] == 1`` additionally reverse kpoint.
 
     Returns
     -------
@@ -166,7 +178,10 @@ def get_little_group(
     mapping_little_group = []
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+        rotated_kpoint = rotation.T @ kpoint
+        if time_reversals is not None and time_reversals[i] == 1:
+            rotated_kpoint = -rotated_kpoint
+        residual = rotated_kpoint - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From d936f5b73555f75ccf26283da2efb05e5580ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 11/26] fix: accept anti-translations of type-IV magnetic space
 groups

The sanity check for primitive cells rejected the identity with a nonzero
translation even if it is combined with time reversal.
---
 src/spgrep/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 4166115..624a931 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -536,7 +536,9 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] == 1:
+            continue  # Anti-translation in type-IV MSG
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
-- 
2.43.0


From c822bd10a7685cfd12659ed8c460b40ea44f4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 12/26] fix: structure-level functions accept any input cell

The transformation to a primitive cell for the Hall number is given for the
standardized cell, but it was applied to the input cell. Structures in another
setting, in a primitive cell or in a supercell gave wrong irreps or errors.
---
 src/spgrep/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 624a931..1806625 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,10 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Input cell -> standardized cell -> primitive cell
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +382,10 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Input cell -> standardized cell -> primitive cell
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
-- 
2.43.0


From 615991eee1348f676517d430c5cb5905b568df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 13/26] fix: spinor factor system and rotations for centred
 cells

get_spacegroup_spinor_irreps returned irreps for every operation of the little
group in the input cell, but the factor system, SU(2) rotations and anti-linear
flags only for the operations of the primitive cell.
---
 src/spgrep/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 1806625..955a228 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -122,7 +122,7 @@ def get_spacegroup_irreps(
     )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, _ = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -435,7 +435,11 @@ def get_spacegroup_spinor_irreps(
         )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    (
+        irreps,
+        mapping_little_group,
+        mapping_conv_to_prim_little_group,
+    ) = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -443,6 +447,10 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    little_spinor_factor_system = little_spinor_factor_system[
+        np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)
+    ]
+    little_unitary_rotations = little_unitary_rotations[mapping_conv_to_prim_little_group]
 
     if magmoms is None:
         return (
@@ -454,6 +462,7 @@ def get_spacegroup_spinor_irreps(
             mapping_little_group,
         )
     else:
+        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]
         return (
             irreps,
             little_spinor_factor_system,
@@ -737,4 +746,4 @@ def _adjust_phase_for_centering_translations(
         irrep = purify_irrep_value(irrep)
 
         irreps.append(irrep)
-    return irreps, np.array(mapping_little_group)
+    return irreps, np.array(mapping_little_group), mapping_conv_to_prim_little_group
-- 
2.43.0


From 0fa576f84b420eb8dba0197fb75a9ec689a4412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 14/26] fix: keep operations with different time reversal in
 magnetic structures

get_spacegroup_spinor_irreps(magmoms=...) merged operations that only differ in
time reversal and indexed the time reversals with the wrong mapping.
---
 src/spgrep/core.py      |  7 ++++---
 src/spgrep/transform.py | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 955a228..60470b6 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -391,8 +391,9 @@ def get_spacegroup_spinor_irreps(
     )
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
+    time_reversals = None if magmoms is None else dataset["time_reversals"]
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -413,8 +414,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.zeros(len(uniq_prim_rotations), dtype=np.int_)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 4e917b1..89b50d8 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time reversals are not duplicated.
 
     Returns
     -------
@@ -69,23 +73,26 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros((len(rotations),), dtype=np.int_)
+
+    operations_int: list[tuple[tuple[tuple[int]], int]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        operation_int = (ndarray2d_to_integer_tuple(rotation), int(time_reversals[i]))
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations_int.index(operation_int)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = len(rotations_int)
-            rotations_int.append(rotation_int)
+            mapping_to_primitive_symmetry[i] = len(operations_int)
+            operations_int.append(operation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From f42a1747a6a8bac447b670dc66f8aa87ee97f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 15/26] fix: decompose representations containing an irrep more
 than once

---
 src/spgrep/irreps.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index e730889..7a19f98 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -323,7 +323,9 @@ def decompose_representation(
     -------
     irreps: list of unitary Irreps with (order, dim, dim)
     """
+    order = representation.shape[0]
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -343,7 +345,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # Equivalent irreps may appear several times in `representation`
+        multiplicities = [
+            np.around(np.real(np.sum(np.conj(get_character(irrep)) * character)) / order)
+            for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From a97d1e1190d16976d87231ceb3808f521538102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 16/26] fix: expected number of basis vectors for physically
 irreducible representations

---
 src/spgrep/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 63e1ce1..82a686d 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -159,7 +159,9 @@ def project_to_irrep(
     character_sum = np.sum(np.conj(character_irrep) * character)
     if not np.isclose(character_sum, np.around(character_sum), atol=atol):
         warn("Inner product of characters should return an integer.")
-    num_basis = np.around(character_sum) / order
+    # Physically irreducible representations of complex or quaternionic types have norm 2 or 4
+    norm = np.around(np.sum(np.abs(character_irrep) ** 2) / order)
+    num_basis = np.around(character_sum) / (order * norm)
     num_basis = np.around(np.real(num_basis)).astype(int)
     if num_basis == 0:
         return []
-- 
2.43.0


From 718e48b850e187d87797cbc76d711bd201e2040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 17/26] fix: no indicators from the square sum for complex
 factor systems

---
 src/spgrep/irreps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 7a19f98..a559e07 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -202,8 +202,13 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Complex factor systems are not shared by conjugated irreps
+    is_conj_factor_system = np.allclose(np.imag(factor_system), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_conj_factor_system else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -230,7 +235,7 @@ def enumerate_unitary_irreps(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-        indicator = frobenius_schur_indicator(irrep)
+        indicator = frobenius_schur_indicator(irrep) if is_conj_factor_system else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From deb5cf2a3efab9d0e47ba47bb72bfc650158ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 18/26] fix: spinor factor system for lattices symmetric only
 within symprec

---
 src/spgrep/corep.py  | 3 ++-
 src/spgrep/spinor.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 13fa71d..cf7fd5d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -311,8 +311,9 @@ def get_corep_spinor_factor_system(
             # si @ sj = sk in O(3)
             k = table[i, j]
             # Multiplier should be -1 or 1
+            # Compare loosely because lattice may be symmetric only within symprec
             for multiplier in [-1, 1]:
-                if np.allclose(uiuj, multiplier * unitary_rotations[k]):
+                if np.allclose(uiuj, multiplier * unitary_rotations[k], rtol=0, atol=0.1):
                     corep_spinor_factor_system[i, j] = multiplier
                     break
 
diff --git a/src/spgrep/spinor.py b/src/spgrep/spinor.py
index 6948a7b..76537e2 100644
--- a/src/spgrep/spinor.py
+++ b/src/spgrep/spinor.py
@@ -137,8 +137,9 @@ def get_spinor_factor_system(
         k = table[i, j]
         uiuj = ui @ uj
         # Multiplier should be -1 or 1
+        # Compare loosely because lattice may be symmetric only within symprec
         for multiplier in [-1, 1]:
-            if np.allclose(uiuj, multiplier * unitary_rotations[k]):
+            if np.allclose(uiuj, multiplier * unitary_rotations[k], rtol=0, atol=0.1):
                 spinor_factor_system[i, j] = multiplier
                 break
 
-- 
2.43.0


From 5cc4e2eb30f5e31d4718da0035b78a2a1ff5f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 19/26] fix: coset splitting for translations given as integers

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 481d335..c175a9b 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -271,7 +271,7 @@ def decompose_by_maximal_space_subgroup(
             if not np.allclose(new_rot, rotations[j]):
                 continue
             diff = np.remainder(new_trans - translations[j], 1)
-            diff -= np.rint(diff)
+            diff = diff - np.rint(diff)
             if np.allclose(diff, 0):
                 time_reversal_indices.append(j)
                 break
-- 
2.43.0


From 78eee1917c8a1243cea789ad3e7f15ce3ff7d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 20/26] fix: real irreps at k with 2k a reciprocal lattice
 vector only within atol

---
 src/spgrep/irreps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index a559e07..ad4102a 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -98,7 +98,7 @@ def enumerate_small_representations(
     # summation over translations becomes zero unless `2*kpoint equiv 0`
     two_kpoint = 2 * np.array(kpoint)
     two_kpoint = two_kpoint - np.rint(two_kpoint)
-    is_conj_kpoint = np.allclose(two_kpoint, 0)
+    is_conj_kpoint = np.allclose(two_kpoint, 0, atol=atol)
 
     if not real:
         indicators = [
-- 
2.43.0


From 7941840205cf37401e7ce1fb41dfccef5d4f3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 21/26] fix: roots of negative numbers of a real type

---
 src/spgrep/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 55e8495..382d567 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -58,7 +58,7 @@ def is_prime(n: int) -> bool:
 
 def nroot(z: np.complex_, n: int) -> np.complex_:
     """Return `n`-th power root of `z` with the minimum angle."""
-    root = z ** (1 / n)
+    root = np.complex_(z) ** (1 / n)
     r = np.absolute(root)
     angle = np.angle(root)
     angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n
-- 
2.43.0


From 74cb0f40fbe4c164773bcc1c9ecf8c8624816355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:52 +0000
Subject: [PATCH 22/26] fix: projection onto an irrep contained many times

---
 src/spgrep/representation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 82a686d..63f9c97 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -169,8 +169,10 @@ def project_to_irrep(
     def _project_to_irrep(adjusted_atol):
         count = 0
         basis: list[NDArrayComplex] = []
-        for n in range(dim):
-            for j in range(dim_irrep):
+        # Take basis vectors well separated from the others first. When an irrep appears many times,
+        # the remaining ones may all be close to the subspace spanned so far.
+        for min_distance in [0.5, 0.05, 0.005]:
+            for n, j in product(range(dim), range(dim_irrep)):
                 # basis_nj[i, :] is the i-th basis vector forms given irrep (i = 0, ... dim_irrep-1)
                 # These basis vectors are mutually orthogonal by construction!
                 basis_nj = (
@@ -191,16 +193,19 @@ def project_to_irrep(
                 basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]
 
                 # Check if linearly independent with other basis vectors
-                # If basis_nj is not independent, Grassmann distance (min correlation) should be one.
-                # We use very rough tolerance, 0.5 to avoid numerical noises.
+                # If basis_nj is not independent, Grassmann distance (min correlation) should be zero.
+                # We use very rough tolerance at first to avoid numerical noises.
                 if (len(basis) > 0) and grassmann_distance(
                     basis_nj, np.concatenate(np.array(basis), axis=0)
-                ) < 0.5:
+                ) < min_distance:
                     continue
 
                 basis.append(basis_nj)
                 count += 1
 
+            if count >= num_basis:
+                break
+
         return basis, count
 
     # Binary search for appropriate tolerance
-- 
2.43.0


From 04119457a8b6be25fb95cec4cf8012d2fc97b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 23/26] fix: symmetrised tensors close to the others were
 dropped

---
 src/spgrep/tensor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..2bda5e7 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -84,12 +84,7 @@ def apply_intrinsic_symmetry(
     tensors: list[NDArrayComplex] | list[NDArrayFloat],
     atol: float = 1e-6,  # A bit large tolerance setting to handle numerical noise
 ) -> list[NDArrayComplex] | list[NDArrayFloat]:
-    """Apply symmetric group on tensors.
-
-    Note
-    ----
-    Current implementation may return wrong number of symmetrized tensors for higher rank...
-    """
+    """Apply symmetric group on tensors."""
     list_sym_basis = []  # type: ignore
     for coeff in tensors:
         rank = len(coeff.shape)
@@ -103,13 +98,14 @@ def apply_intrinsic_symmetry(
             continue
         sym_tensor /= np.linalg.norm(sym_tensor)
 
-        # Store if independent to other symmetric tensors
+        # Store if independent to other symmetric tensors. Note that independent tensors may be close
+        # to the subspace spanned by the others.
         if (
             len(list_sym_basis) > 0
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 0.01
         ):
             continue
 
-- 
2.43.0


From b1b2af1e65d970326d5111e362dba44082c9388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 24/26] fix: real irreps in a basis where eigenvalues of the
 intertwiner are not distinguished

---
 src/spgrep/irreps.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index ad4102a..c6b13bc 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -611,9 +611,14 @@ def get_physically_irrep(
 
         # Real and imaginary parts of symmetric unitary matrix are commuting real symmetric matrices.
         # Thus, eigenvectors of their generic linear combination diagonalize U, and they are real
-        # and orthonormal even if U has degenerate eigenvalues.
-        _, S = np.linalg.eigh(np.real(U) + np.sqrt(2) * np.imag(U))
-        eigvals = np.diag(S.T @ U @ S)
+        # and orthonormal even if U has degenerate eigenvalues. Each pair of different eigenvalues is
+        # not distinguished by one combination at most.
+        for m in range(1 + dim * (dim - 1) // 2):
+            _, S = np.linalg.eigh(np.real(U) + np.sqrt(2 + m) * np.imag(U))
+            diagonalized = S.T @ U @ S
+            eigvals = np.diag(diagonalized)
+            if np.allclose(diagonalized, np.diag(eigvals), atol=atol):
+                break
 
         # Square root of intertwiner
         T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
-- 
2.43.0


From b20af1789d48d39394fc73f0859ea17889743347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 25/26] fix: refuse arrays of operations, time reversals, or
 factor systems of different sizes instead of truncating them

---
 src/spgrep/corep.py          |  2 ++
 src/spgrep/group.py          | 16 ++++++++++++++++
 src/spgrep/irreps.py         |  2 ++
 src/spgrep/representation.py |  6 ++++++
 src/spgrep/transform.py      |  5 +++++
 5 files changed, 31 insertions(+)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index cf7fd5d..dc79368 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -74,6 +74,8 @@ def enumerate_spinor_small_corepresentations(
         If ``anti_linear[i] == True``, the ``i``-th operator is anti-linear.
     """
     order = len(little_rotations)
+    if not order == len(little_translations) == len(little_time_reversals):
+        raise ValueError("Numbers of rotations, translations, and time reversals should be equal!")
 
     if np.all(little_time_reversals == 0):
         # Type-I MSG
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index c175a9b..53262a0 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -32,6 +32,8 @@ def get_cayley_table(
     order = rotations.shape[0]
     if time_reversals is None:
         time_reversals = np.zeros((order,), dtype=np.int_)
+    if len(time_reversals) != order:
+        raise ValueError("Numbers of rotations and time reversals should be equal!")
 
     operations_list = [
         (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)
@@ -129,6 +131,10 @@ def get_factor_system_from_little_group(
         Factor system of representations of little co-group that have one-to-one correspondence to small representations
     """
     n = len(little_rotations)
+    if len(little_translations) != n or (
+        little_time_reversals is not None and len(little_time_reversals) != n
+    ):
+        raise ValueError("Numbers of rotations, translations, and time reversals should be equal!")
 
     residuals = np.zeros((n, 3))
     for i, rotation in enumerate(little_rotations):
@@ -173,6 +179,11 @@ def get_little_group(
         Let ``i = mapping_little_group[idx]``.
         ``(rotations[i], translations[i])`` belongs to the little group of given space space group and kpoint.
     """
+    if len(translations) != len(rotations) or (
+        time_reversals is not None and len(time_reversals) != len(rotations)
+    ):
+        raise ValueError("Numbers of rotations, translations, and time reversals should be equal!")
+
     little_rotations = []
     little_translations = []
     mapping_little_group = []
@@ -203,6 +214,8 @@ def check_cocycle_condition(
     """Return true if given factor system satisfies the cocycle condition."""
     if not is_matrix_group(rotations):
         return False
+    if np.shape(factor_system) != (len(rotations), len(rotations)):
+        return False
 
     rotations_int = [ndarray2d_to_integer_tuple(r) for r in rotations]
 
@@ -239,6 +252,9 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
+    if not len(rotations) == len(translations) == len(time_reversals):
+        raise ValueError("Numbers of rotations, translations, and time reversals should be equal!")
+
     if np.all(time_reversals == 0):
         # Type-I MSG
         return None
diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index c6b13bc..6831f10 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -179,6 +179,8 @@ def enumerate_unitary_irreps(
     order = rotations.shape[0]
     if factor_system is None:
         factor_system = np.ones((order, order), dtype=np.complex_)
+    if np.shape(factor_system) != (order, order):
+        raise ValueError("Factor system should have the shape (order, order)!")
 
     if method == "Neto":
         table = get_cayley_table(rotations)
diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 63f9c97..0e50d7b 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -57,6 +57,8 @@ def get_projective_regular_representation(
         If and only if ``np.dot(rotations[k], rotations[j]) == rotations[i]``, ``reg[k, i, j] == factor_system[k, j]``.
     """
     n = len(rotations)
+    if np.shape(factor_system) != (n, n):
+        raise ValueError("Factor system should have the shape (order, order)!")
     table = get_cayley_table(rotations)
 
     reg = np.zeros((n, n, n), dtype=np.complex_)
@@ -257,6 +259,8 @@ def is_representation(
 ) -> bool:
     """Return true if given matrix function is a (projective) representation with given factor system."""
     order = rep.shape[0]
+    if len(table) != order:
+        return False
     if factor_system is None:
         factor_system = np.ones((order, order), dtype=np.complex_)
 
@@ -308,6 +312,8 @@ def check_spacegroup_representation(
 ) -> bool:
     """Check definition of representation. This function works for primitive and conventional cell."""
     order = len(little_rotations)
+    if not order == len(little_translations) == len(rep):
+        return False
     if spinor_factor_system is None:
         spinor_factor_system = np.ones((order, order), dtype=np.complex_)
 
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 89b50d8..32235b6 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -38,6 +38,9 @@ def transform_symmetry_and_kpoint(
     transformed_translations: array, (num_sym, 3)
     transformed_kpoint: array, (3, )
     """
+    if len(translations) != len(rotations):
+        raise ValueError("Numbers of rotations and translations should be equal!")
+
     # (R, t) -> (P^-1 R P, P^-1 t)
     pinv = np.linalg.inv(transformation_matrix)
     transformed_rotations = np.array(
@@ -75,6 +78,8 @@ def unique_primitive_symmetry(
     """
     if time_reversals is None:
         time_reversals = np.zeros((len(rotations),), dtype=np.int_)
+    if not len(rotations) == len(translations) == len(time_reversals):
+        raise ValueError("Numbers of rotations, translations, and time reversals should be equal!")
 
     operations_int: list[tuple[tuple[tuple[int]], int]] = []
 
-- 
2.43.0


From 97f3ecf8b4488894042ee27191c2e2630a6891af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 26/26] fix: refuse a basis in which rotations are not integer
 matrices instead of rounding them

---
 src/spgrep/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 32235b6..80be071 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -46,6 +46,10 @@ def transform_symmetry_and_kpoint(
     transformed_rotations = np.array(
         [pinv @ rotation @ transformation_matrix for rotation in rotations]
     )
+    if not np.allclose(
+        transformed_rotations, np.around(transformed_rotations), rtol=0, atol=1e-2
+    ):
+        raise ValueError("Rotations are not integer matrices in the transformed basis!")
     transformed_rotations = np.around(transformed_rotations).astype(int)
     # Never take modulus for translations here!
     transformed_translations = np.array([pinv @ translation for translation in translations])
-- 
2.43.0

