"""Write properties.jsonl and MANIFEST.json from one table.  usage: python3 tools/mkdocs.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/spgrep/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note))


EXACT = "Trusts numpy, spglib's symmetry tables and the exact-arithmetic reference model in mc/exact.py; says nothing about inputs outside the stated bounds."

prop("C01", "Complete unitary small irreps for every space group and k vector (primitive)",
     "For the operations of any space group in a primitive cell and any k vector, the returned little group is exactly the operations that leave k unchanged up to a reciprocal lattice vector, and the returned matrices are unitary small representations: D(g)D(h) = D(gh) exp(-i 2 pi k.T), T being the lattice translation by which the product of the two listed operations differs from the listed one. The returned irreps are pairwise inequivalent and complete (squared dimensions sum to the order of the little group). This holds for both methods, whatever the order of the operations, the representative translations, the origin, the choice of primitive basis, and the reciprocal lattice vector added to k.",
     ["inputs"], "All 530 Hall settings, grids and lines of k vectors, both methods, single and double deviations of the presentation.",
     "Tests evaluate a dozen groups at one or two k vectors; factor systems, chains of solvable subgroups and randomised decomposition take a different path for each group, order of operations and k.",
     [S + "core.py", S + "irreps.py", S + "group.py", S + "pointgroup.py"],
     [("little group and factor system", S + "group.py get_little_group, get_factor_system_from_little_group"), ("irreps by induction along a solvable chain", S + "irreps.py enumerate_unitary_irreps_from_solvable_group_chain"), ("irreps from the regular representation", S + "irreps.py enumerate_unitary_irreps_from_regular_representation"), ("phases of the small representation", S + "irreps.py enumerate_small_representations")],
     "exhaustive bounded enumeration of space groups, k vectors and presentations; each model edge (product of two little-group elements) replayed on the returned matrices", EXACT)
prop("C02", "Small irreps from a crystal structure given in any cell",
     "Given a crystal structure in any cell (primitive, conventional, with permuted or skewed axes), the returned rotations and translations are exactly the symmetry operations the crystal has in that cell within the symmetry tolerance symprec, including centring translations. For k in the reciprocal basis of that cell (or in the primitive or a user-supplied reciprocal basis, which selects how k is read), the mapping lists exactly the operations of the little group, and the irreps are complete, pairwise inequivalent, unitary small representations of the whole little group, centring translations being represented by exp(-i 2 pi k.w). The requested reciprocal basis, method and symmetry tolerance are honoured.",
     ["inputs", "configurations"], "Crystals of all 530 Hall settings, four cells each (more in the thorough tier), k vectors inside and outside the first zone, reciprocal bases; strained and displaced crystals at three tolerances.",
     "Tests use a few crystals in one standard cell; the bookkeeping between the given cell, the primitive cell and the centring translations differs for every lattice type and cell choice.",
     [S + "core.py", S + "transform.py", S + "irreps.py"],
     [("transformation to the primitive cell and back", S + "core.py get_spacegroup_irreps"), ("phase of centring translations", S + "core.py _adjust_phase_for_centering_translations")],
     "exhaustive bounded enumeration of crystals, cells and k vectors against exact operations; every product in the little group replayed on the returned matrices", EXACT)
prop("C03", "Complete unitary irreps of every point group in any basis and order",
     "For any crystallographic point group given by integer matrices in any lattice basis and any order, the returned matrices are unitary representations in the order of the input, irreducible, pairwise inequivalent, and as many as there are conjugacy classes. Both methods satisfy this.",
     ["inputs"], "122 distinct rotation sets, all their conjugates with small entries (thousands of bases), orders, both methods.",
     "Tests visit the tabulated settings only; generators are found by matching a table, which succeeds or fails per basis and order.",
     [S + "core.py", S + "irreps.py", S + "pointgroup.py"],
     [("matching with tabulated point groups", S + "pointgroup.py get_pointgroup_chain_generators"), ("enumeration", S + "irreps.py enumerate_unitary_irreps")],
     "exhaustive enumeration of point groups x bases x orders; multiplication table replayed on the matrices", EXACT)
prop("C04", "Chain generators give a normal series with Abelian factors",
     "For any crystallographic point group in any lattice basis and order, the returned list of indices generates, taken from its end one at a time, a series of subgroups from the trivial group to the whole group, each normal in the next with an Abelian factor group. Input that is not a crystallographic point group is refused with an error.",
     ["inputs"], "122 rotation sets x orders and about 67,000 conjugate bases.",
     "Tests check the tabulated settings in one basis.",
     [S + "pointgroup.py"],
     [("table of generators and traversal", S + "pointgroup.py get_pointgroup_chain_generators")],
     "explicit-state closure of every subgroup in the series, over all enumerated bases and orders", EXACT)
prop("C05", "Spin-1/2 lift, its factor system and complete spinor irreps",
     "For every rotation (proper or improper) on any lattice, in any Cartesian orientation or handedness, the returned 2x2 matrix is unitary with determinant one and rotates spin like the proper part of the operation; products of these matrices differ from the matrix of the product exactly by the returned factor system of values +1 and -1 (also when the lattice has the symmetry only approximately, as after a relaxation; the products then hold approximately). The returned double-valued representations satisfy D(g)D(h) = w(g,h) D(gh) (with the k-dependent lattice phase for space groups) with that factor system and are unitary, pairwise inequivalent and complete.",
     ["inputs"], "122 rotation sets in 5 orientations, conjugate bases; 530 Hall settings x k vectors.",
     "Tests look at four groups; axis and angle extraction has special cases (two-fold axes, identity, improper) depending on orientation.",
     [S + "spinor.py", S + "core.py"],
     [("2x2 rotation", S + "spinor.py get_spinor_unitary_rotation, get_rotation_angle_and_axis"), ("factor system", S + "spinor.py get_spinor_factor_system"), ("enumeration", S + "spinor.py enumerate_spinor_small_representations")],
     "exhaustive enumeration of groups x orientations x k vectors; all products replayed on the returned matrices", EXACT)
prop("C06", "Spinor (co-)representations from a (magnetic) crystal structure",
     "Given a crystal structure with or without magnetic moments, in any cell, and a k vector (in the dual basis, in a reciprocal basis of the caller's, or left out for zero), the returned operations (with time-reversal flags) are exactly the symmetry the crystal has within symprec, the mapping lists exactly those that preserve k (antiunitary ones: send k to -k), and the returned spinor rotations and factor system are those of the little group in that order, centring translations included. The returned representations or co-representations are unitary, satisfy the multiplication rule with that factor system and the lattice phases (complex conjugating after an antiunitary operation), and are complete and pairwise inequivalent.",
     ["inputs", "configurations"], "Crystals of 530 Hall settings and collinear magnetic crystals of 1651 magnetic groups x cells x k vectors.",
     "Tests use three crystals.",
     [S + "core.py", S + "corep.py", S + "transform.py"],
     [("structure-level spinor enumeration", S + "core.py get_spacegroup_spinor_irreps")],
     "exhaustive bounded enumeration of magnetic crystals x cells x k; products replayed on returned matrices", EXACT + " Crystals for which spglib itself finds no or too little symmetry are left out and counted.")
prop("C07", "Complete small co-representations of magnetic space and point groups",
     "For any magnetic space group in a primitive cell (or magnetic point group) and any k vector, the little group consists of the unitary operations with Rk = k and the antiunitary ones with Rk = -k up to reciprocal lattice vectors. The returned matrices are unitary and multiply with the returned factor system and lattice phases, the second factor complex conjugated after an antiunitary operation; they are irreducible as co-representations, pairwise inequivalent and complete. The returned indicator and antilinear flags tell which type (a, b or c) each is and which operations are antiunitary.",
     ["inputs"], "All 1651 magnetic space groups x k vectors x orientations x presentations; all magnetic point groups.",
     "Tests look at five magnetic groups.",
     [S + "corep.py", S + "core.py"],
     [("co-representations", S + "corep.py enumerate_spinor_small_corepresentations"), ("factor system", S + "corep.py get_corep_spinor_factor_system")],
     "exhaustive enumeration of magnetic groups x k; all products replayed; irreducibility by the Wigner-Dimmock sum", EXACT)
prop("C08", "Splitting a magnetic group into its unitary subgroup and the coset",
     "For any list of operations with time-reversal flags that form a group (modulo lattice translations), the split returns all operations without time reversal and, if there are any with it, exactly one antiunitary coset representative and indices listing the coset in the order of the unitary subgroup, so that each listed antiunitary operation is the product of the representative with the corresponding unitary one modulo lattice translations. Without antiunitary operations the representative is absent.",
     ["inputs"], "All 1651 magnetic groups in conventional and primitive cells x presentations x choice of first antiunitary operation; little groups.",
     "Tests check one group per type.",
     [S + "group.py"],
     [("split", S + "group.py decompose_by_maximal_space_subgroup")],
     "exhaustive enumeration; returned indices checked by exact integer and rational arithmetic", EXACT)
prop("C09", "Physically irreducible representations over the real numbers",
     "For point groups, and for space groups at k vectors with 2k a reciprocal lattice vector, the representations returned over the real numbers are real orthogonal matrices that satisfy the multiplication rule, are irreducible over the reals, pairwise inequivalent and complete: each complex irrep occurs in exactly one of them, once if of real type, doubled if quaternionic and together with its conjugate if of complex type. The accompanying indicator gives the type. Conversion of a single unitary irrep works in any basis of it. At other k vectors representations over the real numbers pair irreps of complex type with their conjugates.",
     ["inputs"], "530 Hall settings x k vectors with 2k=0 x presentations; other k vectors; 122 rotation sets x orders x bases; conversion of single irreps in adversarial unitary bases.",
     "Tests look at four space groups; the three indicator types take different code and many groups have only one of them.",
     [S + "irreps.py", S + "core.py"],
     [("real irreps", S + "irreps.py get_physically_irrep, enumerate_unitary_irreps, enumerate_small_representations")],
     "exhaustive enumeration, compared with the complex enumeration of the same input by exact multiplicities", EXACT + " 367 inputs (k with 2k not 0) are known findings pinned by an existing test.")
prop("C10", "Frobenius-Schur indicators",
     "The indicator returned with each irrep is 1, -1 or 0 and equals the average of the character over squared operations of the group that it classifies: for small representations it vanishes unless 2k is a reciprocal lattice vector, and the dimension-weighted sum of indicators then counts the square roots of the identity. It does not depend on the order of operations or the basis.",
     ["inputs"], "530 Hall settings x k vectors x presentations; 122 rotation sets x orders x methods, ordinary and spin.",
     "Tests check indicators of two groups.",
     [S + "irreps.py", S + "representation.py"],
     [("indicator", S + "representation.py frobenius_schur_indicator"), ("indicator of small representations", S + "irreps.py enumerate_small_representations")],
     "exhaustive enumeration against exact character sums in a model of the little group", EXACT)
prop("C11", "Symmetry-adapted bases from projection onto an irrep",
     "Projecting a representation onto an irrep (complex, real or projective with the same factor system) returns as many bases as the irrep occurs in it, each an orthonormal set of row vectors that transforms exactly with the given irrep matrices, and different bases are linearly independent, also when the representation is known only up to numerical noise; nothing is returned when the irrep does not occur, and an error when the sizes of the groups differ.",
     ["inputs"], "122 rotation sets x 8 representations x irreps; 530 Hall settings x k vectors x multiplicities up to 3.",
     "Tests project four representations; the tolerance search and repeated irreps depend on multiplicity and basis.",
     [S + "representation.py"],
     [("projection", S + "representation.py project_to_irrep")],
     "exhaustive enumeration of (representation, irrep) pairs against exact multiplicities, defining equation substituted", EXACT)
prop("C12", "Regular representations, direct products and decomposition",
     "The (projective) regular representation is the permutation (monomial) representation of left multiplication with the given factor system. The direct product is the Kronecker product operation by operation, and mismatching groups are refused. Decomposing any representation returns each inequivalent irrep it contains exactly once, as a unitary representation with the same factor system.",
     ["inputs"], "122 rotation sets x orders, sums with repetitions, 530 Hall settings x k vectors.",
     "Tests decompose two representations.",
     [S + "representation.py", S + "irreps.py"],
     [("regular representation", S + "representation.py get_regular_representation, get_projective_regular_representation"), ("decomposition", S + "irreps.py decompose_representation")],
     "exhaustive enumeration compared entry by entry or by exact multiplicities", EXACT)
prop("C13", "Symmetry-adapted tensors span exactly the invariant tensors",
     "For any point group, representation and rank, the returned tensors are linearly independent, invariant under every operation and span all invariant tensors of that rank; they are real when real tensors are requested. Applying intrinsic (permutation) symmetry to any basis of them returns linearly independent tensors that are invariant and totally symmetric and span all such tensors.",
     ["inputs"], "122 rotation sets x ranks 1-5 x orientations x representations of dimension 1, 3 and 6, real and complex; bases as returned, densely mixed, and all close to one tensor.",
     "Tests look at three groups and one rank each.",
     [S + "tensor.py"],
     [("tensors", S + "tensor.py get_symmetry_adapted_tensors, apply_intrinsic_symmetry")],
     "exhaustive enumeration against the group-averaged projector on the full tensor space", EXACT)
prop("C14", "Coordinate changes of operations and k vectors are exact",
     "Changing the basis of operations and k vector preserves the crystallographic meaning: every operation acts on the same points and k.x is unchanged, and going through an intermediate cell gives the same as going directly; a basis in which the operations are not integer matrices is refused. Reducing to unique primitive operations keeps one operation per coset of centring translations (distinct ones being distinguished by time reversal too) and maps every input operation to its representative. The tabulated primitive transformation, centring, crystal system and operations of every Hall number agree with its symmetry.",
     ["inputs"], "530 Hall settings and 1651 magnetic groups x changes of basis x k vectors; every sublattice and finer lattice of index 2, 3 and 4.",
     "Tests transform one group.",
     [S + "transform.py", S + "utils.py"],
     [("transformation", S + "transform.py transform_symmetry_and_kpoint, unique_primitive_symmetry, get_primitive_transformation_matrix, get_crystal_system, get_centering")],
     "exhaustive enumeration of settings x bases in exact rational arithmetic", EXACT)
prop("C15", "The little group of k is exact within the tolerance",
     "The little group consists of exactly the operations that map k to itself modulo a reciprocal lattice vector within the given tolerance, returned in the order of input together with indices into the input, for k of any size and presentation. Displacing k by less than the tolerance does not change it, and by more selects the operations that leave the displacement unchanged.",
     ["inputs"], "530 Hall settings x 123 k vectors, shifts up to 100 reciprocal lattice vectors, displacements around the tolerance.",
     "Tests check one k vector.",
     [S + "group.py"],
     [("little group", S + "group.py get_little_group")],
     "exhaustive enumeration against exact rational arithmetic", EXACT)
prop("C16", "Factor systems are the exact phases and satisfy the cocycle identity",
     "The factor system of a little group equals exp(-i 2 pi g.w) with g the reciprocal lattice vector by which the inverse operation changes k and w the translation of the second operation, for every pair, and satisfies the cocycle identity. It does not depend on the order in which the operations are given except by relabelling.",
     ["inputs"], "530 Hall settings x k grids and lines x presentations.",
     "Tests check two groups at one k vector.",
     [S + "group.py"],
     [("factor system", S + "group.py get_factor_system_from_little_group, check_cocycle_condition")],
     "exhaustive enumeration; entries compared in exact arithmetic and the cocycle identity decided exactly for all triples", EXACT)
prop("C17", "Same irreps whatever the method, presentation or arm of the star",
     "Two enumerations of the same group and k vector - by different methods, orders of operations, representatives, origins, equivalent k vectors, bases or arms of the star - give the same set of irreps up to equivalence, matched by characters on corresponding operations, with the same indicators; likewise for irreps over the reals, spin irreps and co-representations.",
     ["inputs"], "530 Hall settings and 1651 magnetic groups x k vectors x 12 relations.",
     "Tests never compare two presentations of one group.",
     [S + "irreps.py", S + "core.py", S + "corep.py"],
     [("enumeration", S + "irreps.py enumerate_small_representations"), ("induced matrices", S + "corep.py enumerate_spinor_small_corepresentations")],
     "exhaustive enumeration of pairs of presentations (metamorphic relations) decided by characters", EXACT)
prop("C18", "Results depend only on the arguments, whatever was called before",
     "In any sequence of calls each call returns what it returns in a fresh process, leaves its arguments, results returned earlier, and the interpreter-wide state (random generators, numpy error and print settings, warning filters, environment) untouched; results do not share memory with arguments the caller may change later or with other results. Neither hash seed nor the state of the global random generators nor numpy settings influence a result.",
     ["histories"], "All sequences of up to 2 of 126 calls (among them pairs differing in one argument only) and up to 3 of 14 calls, in 3 modes of use of the results and arguments.",
     "Tests run each call once, in arbitrary order, and never modify results.",
     [S + "core.py", S + "irreps.py", S + "pointgroup.py", S + "transform.py"],
     [("fixed seed and no module state", S + "irreps.py rng"), ("copies of inputs", S + "core.py")],
     "exhaustive exploration of call histories on the real code in a tree of forked processes", "Bounded depth and alphabet; trusts fork to copy the process state.")
prop("C19", "Concurrent calls in two threads do not disturb each other",
     "When two threads call the library at the same time, each call returns exactly what it returns alone, under every schedule, and the interpreter-wide state (warning filters, random generators) is left as it was.",
     ["schedules"], "Pairs of 38 calls, one preemption at every line of the library, two preemptions for small calls.",
     "Tests are single-threaded.",
     [S + "irreps.py", S + "representation.py", S + "pointgroup.py", S + "core.py"],
     [("no shared mutable state", S + "irreps.py")],
     "preemption-bounded exploration of thread schedules on the real code (line-level scheduler)", "Schedules up to the preemption bound at the granularity of source lines of the library; numpy and spglib calls are atomic.")
prop("C20", "Intertwiner of equivalent irreps; refusal for inequivalent ones",
     "For two equivalent irreducible (projective) representations the returned matrix is unitary and satisfies D1(g) U = U D2(g) for every operation. For inequivalent irreps of equal dimension the result is the zero matrix with a warning, never a wrong matrix.",
     ["inputs"], "Pairs of irreps of 122 rotation sets and 530 Hall settings x k; unitary changes of basis.",
     "Tests check one pair.",
     [S + "representation.py"],
     [("intertwiner", S + "representation.py get_intertwiner")],
     "exhaustive enumeration of pairs of irreps, defining equation substituted", EXACT)
prop("C21", "Validators accept exactly what satisfies the defining equations",
     "The checks for unitarity, representation property, space-group representation property, equivalence of irreps and the cocycle condition accept every object that satisfies the defining equations and reject every object in which one matrix, entry or phase is altered so that it no longer does.",
     ["inputs"], "Irreps and factor systems of 122 rotation sets and 530 Hall settings with every single alteration from a list.",
     "Tests only show accepted examples.",
     [S + "representation.py", S + "group.py", S + "irreps.py"],
     [("validators", S + "representation.py is_unitary, is_representation, check_spacegroup_representation; group.py check_cocycle_condition; irreps.py is_equivalent_irrep")],
     "exhaustive enumeration of single faults in valid objects; verdict compared with the residual of the defining equation", EXACT)
prop("C22", "Group tables, inverses, orders and the group test are exact",
     "For any list of integer matrices forming a group (with time-reversal flags or not) the multiplication table, identity, inverses and element orders are those of exact integer arithmetic. A set of matrices is accepted as a group exactly when it is closed under multiplication with every element occurring once in each row and column of its table; sets that are not closed have no table.",
     ["inputs"], "122 rotation sets x orders x bases, magnetic point groups, all subsets of small groups, all sets of up to 3 of 81 small matrices.",
     "Tests check one group and one non-group.",
     [S + "group.py"],
     [("tables", S + "group.py get_cayley_table, get_identity_index, get_inverse_index, get_order, is_matrix_group")],
     "exhaustive enumeration of groups, subsets and small matrix sets against exact closure", EXACT)
prop("C23", "Elementary numerical helpers agree with their definitions",
     "Primality, complex n-th roots, integrality tests, distance between subspaces, products of tensors with matrices along each index, conversion to tuples, rounding of irrep values to their exact surds, angle and axis of rotation matrices, and lookup of symmetry operations by Hall number agree with their mathematical definitions over their whole stated domain.",
     ["inputs"], "Grids of arguments (all integers up to 20000, products of primes below 1000, roots of phases with denominators up to 24, subspaces of C^5, rotations by multiples of 15 degrees, all Hall numbers).",
     "Tests give one or two values each.",
     [S + "utils.py", S + "irreps.py"],
     [("helpers", S + "utils.py, spinor.py get_rotation_angle_and_axis"), ("rounding of values", S + "irreps.py purify_irrep_value, purify_real_irrep_value")],
     "exhaustive enumeration of small argument domains against independent definitions", EXACT)
prop("C24", "Complete projective irreps for any normalised factor system",
     "For any point group and any factor system with unit modulus that satisfies the cocycle identity and equals one when either operation is the identity, both methods return unitary matrices with D(g)D(h) = w(g,h) D(gh), irreducible, pairwise inequivalent and complete; multiplying the factor system by a coboundary changes them only by the corresponding phases up to equivalence.",
     ["inputs"], "122 rotation sets and all classes of factor systems met at zone-boundary k and for spin x 7 coboundaries x both methods.",
     "Tests use factor systems as they come from one or two space groups.",
     [S + "irreps.py"],
     [("projective enumeration", S + "irreps.py enumerate_unitary_irreps, enumerate_unitary_irreps_from_solvable_group_chain, enumerate_unitary_irreps_from_regular_representation")],
     "exhaustive enumeration of groups x cocycles x coboundaries; all products replayed", EXACT)
prop("C25", "Unusable input is refused, never answered wrongly",
     "Operations given in a centred cell or containing a pure fractional translation (without time reversal), lists of rotations that are not a group, unknown method names and arrays of mismatching sizes (operations, translations, time reversals, factor systems, representations) are refused with an error; lists of matrices that are a group, but of no lattice, are refused or answered completely. Leaving out operations such that a group remains gives the complete answer for that group, and never a wrong answer otherwise.",
     ["inputs"], "Centred cells of 530 Hall settings and 1651 magnetic groups, subsets of 122 point groups, extra translations, names, sizes of every argument of every entry point, non-crystallographic groups.",
     "Tests contain no negative cases for these.",
     [S + "core.py", S + "pointgroup.py", S + "irreps.py", S + "representation.py"],
     [("primitive-cell guard", S + "core.py get_spacegroup_irreps_from_primitive_symmetry"), ("method guard", S + "irreps.py enumerate_unitary_irreps"), ("point-group guard", S + "pointgroup.py get_pointgroup_chain_generators")],
     "exhaustive enumeration of defective inputs of each kind", EXACT)

prop("C26", "Irreps of any finite group given by its table or its regular representation",
     "For any finite group given by a multiplication table (elements in any order, identity anywhere), any normalised factor system with values on the unit circle, and any list of generators that builds the group up from the trivial subgroup (the last one generating a cyclic group, each earlier one of prime order p extending a normal subgroup to one of index p), the chain algorithm returns a complete list of pairwise inequivalent irreducible unitary matrices multiplying with that factor system. The decomposition of the (projective) regular representation returns the same up to equivalence, whether or not the group has such a chain.",
     ["inputs"], "All 74 groups of order <= 24 (93 of order <= 31 in the thorough tier) and the simple group of order 60, their split chains, sign and cube-root cocycle classes, coboundaries, orders.",
     "Tests use tabulated point groups with their one tabulated chain; both functions are public and take any table.",
     [S + "irreps.py"],
     [("induction along a chain", S + "irreps.py enumerate_unitary_irreps_from_solvable_group_chain"), ("decomposition", S + "irreps.py enumerate_unitary_irreps_from_regular_representation, decompose_representation")],
     "exhaustive enumeration of groups, chains and cocycle classes up to an order; every product replayed on the returned matrices, number of irreps from twisted conjugacy classes", EXACT)


prop("C27", "Correct results whatever random numbers are drawn",
     "Whatever numbers the internal random generator delivers, every enumeration, decomposition and intertwiner either is complete and correct or comes with a warning or an error: a degenerate draw (coinciding eigenvalues, vanishing matrix) never leads to missing, reducible, repeated or non-unitary representations given silently. A draw that fails is followed by new ones, up to the number of attempts the caller allows at any entry point, so that the result is complete if one of them is good.",
     ["inputs", "fault_sequences"], "Outcomes of the random draws: all coincidence patterns of eigenvalues for small representations, pairs for larger ones, degenerate matrices, at each attempt; all public entry points.",
     "Tests use the one sequence of random numbers of the fixed seed, for which the first attempt succeeds.",
     [S + "irreps.py", S + "representation.py", S + "core.py", S + "corep.py"],
     [("retry and completeness test", S + "irreps.py enumerate_unitary_irreps_from_regular_representation, decompose_representation"), ("retry", S + "representation.py get_intertwiner"), ("number of attempts handed down", S + "core.py max_num_random_generations")],
     "exhaustive exploration of the nondeterministic outcomes of the random generator (scripted draws) on the real code; every product replayed on the returned matrices", "Trusts numpy and the exact reference model; draws are taken over through numpy.random.default_rng seeded with 0 (other generators are left alone and then nothing is forced).")
prop("C28", "The way the caller stores the arrays does not matter",
     "Every function gives the same answer for the same numbers whatever the memory layout of the argument arrays (C or Fortran order, strided, reversed or overlapping views, subclass of ndarray), their byte order, integer width, integers given as floating-point numbers or whole floating-point numbers as integers, complex numbers without imaginary part as real ones, boolean flags as integers, and whether or not they are writable; it never writes into them.",
     ["inputs"], "72 calls of all public functions and enumerations over all settings x 12 ways of storing each array or all of them.",
     "Tests pass freshly made arrays of one kind.",
     [S + "core.py", S + "group.py", S + "transform.py", S + "representation.py", S + "tensor.py", S + "spinor.py"],
     [("copies and conversions of inputs", S + "core.py"), ("lookups keyed by matrices", S + "utils.py ndarray2d_to_integer_tuple")],
     "exhaustive enumeration of storage variants (single deviations and all arguments at once; pairs in the thorough tier) compared with the ordinary call", "Representations compared by characters, bases and tensors by their span; lists instead of arrays are not covered.")


prop("C29", "Tolerances given by the caller are honoured at every entry point",
     "When a k vector differs from one of higher symmetry by (well) less than the tolerance atol given to any of the enumeration functions, the little group and the irreps (complex, real, spin and co-representations; from operations or from a crystal) are those of the latter up to an error in proportion to the difference. When it differs by (well) more, they are exactly those of the vector given. Noise in the translations well below the tolerance does not change this. The relative tolerance rtol likewise reaches the random method.",
     ["inputs", "configurations"], "530 Hall settings and 1651 magnetic groups x k vectors x displacements 1e-9 to 1e-3 x tolerances x directions.",
     "Tests use exact k vectors with the default tolerances.",
     [S + "core.py", S + "irreps.py", S + "corep.py", S + "group.py", S + "spinor.py"],
     [("tolerances handed down", S + "core.py rtol, atol"), ("little group within tolerance", S + "group.py get_little_group"), ("real irreps within tolerance", S + "irreps.py enumerate_small_representations")],
     "exhaustive enumeration of groups x k x displacements and tolerances; every product replayed against the exact model of the k vector meant", EXACT)


prop("C30", "Complete symmetry-adapted displacements and spin orbitals of crystals",
     "For a crystal in any cell and any k vector, the displacements of its atoms (Bloch waves moved by the returned rotations and translations) and spin s-orbitals (with the returned spinor rotations) are spanned completely by projecting them onto the returned irreps one after the other: each irrep gives as many orthonormal, linearly independent bases as the exact multiplicity, each transforming with that irrep's own matrices, and the dimensions add up to those of the waves of that k vector in the cell. Decomposing the representation of the displacements gives each irrep contained in it exactly once. At 2k = 0 the same holds for real displacements with the irreps over the reals.",
     ["inputs", "configurations"], "530 Hall settings x special and general positions x four cells x k vectors.",
     "Tests project one representation of two groups; operations, mapping, phases and projection have to fit together for every crystal, cell and k.",
     [S + "core.py", S + "representation.py", S + "irreps.py"],
     [("operations and mapping", S + "core.py get_spacegroup_irreps, get_spacegroup_spinor_irreps"), ("projection", S + "representation.py project_to_irrep"), ("decomposition", S + "irreps.py decompose_representation")],
     "exhaustive enumeration of crystals x cells x k vectors, end to end; every operation replayed on every basis", EXACT)


exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], hook_needed=None))) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, spglib' && chmod +x run.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                 technique="model checking: " + p["technique"], level="model_checking", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks in /repo: every check drives the public functions of the current working tree (pure Python, no build step).",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
