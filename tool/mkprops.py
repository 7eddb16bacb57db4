#!/usr/bin/env python3
"""writes properties.jsonl (one JSON object per line)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("P01", "Solver names select the documented method",
  "Every documented solver name is accepted and yields a preconditioner of exactly the method, block size and storage order it documents, including whether construction and application run threaded or sequentially. Any unknown name, unsupported block size or unsupported method/block combination is rejected with an exception. A request never yields a null or wrong-method object.",
  ["inputs", "configurations"], "every solver name string, block size, block storage order and factory request",
  "The tests request only a few methods at block size 1 and 4; most name/type/block combinations and every rejection path are never requested.",
  ["src/solverfactory.cpp", "include/solverfactory.hpp", "include/solvertypes.h"],
  [("name to method mapping", "src/solverfactory.cpp solverTypeFromString"), ("method and block size to class", "src/solverfactory.cpp create_preconditioner, create_srpreconditioner_of_type")])

p("P02", "Configured settings reach the operation they configure",
  "Every setting a user gives (numbers of build and application sweeps, work-chunk size, symmetric scaling, the two initial-guess choices, whether factor diagnostics are computed, and the threading implied by the method) is the one the constructed preconditioner uses for that purpose. No setting is dropped, exchanged with another, or replaced by a default.",
  ["configurations"], "every settings combination, method, block size and block storage order",
  "Same-typed constructor arguments swap silently; tests use one setting combination where exchanged values coincide.",
  ["src/solverfactory.cpp", "src/solverops_ilu0.cpp", "src/solverops_levels_ilu0.cpp", "src/solverops_sgs.cpp", "src/relaxation_chaotic.cpp", "src/blasted_petsc.cpp"],
  [("factory construction", "src/solverfactory.cpp create_srpreconditioner_of_type"), ("constructors", "constructors of the preconditioner classes in src/solverops_*.cpp")])

p("P03", "Initial guesses and sweep counts are honoured",
  "Each supported initial-guess choice makes the asynchronous build or application start from exactly the documented values (zero, a Jacobi-type guess, the original matrix entries, or a symmetric Gauss-Seidel-type factorisation), and an unsupported choice raises an exception. Exactly the configured number of build sweeps and of application sweeps is performed in each direction.",
  ["inputs", "configurations"], "every matrix, right-hand side, initial-guess choice and sweep count, scaled and unscaled, scalar and block",
  "Enough sweeps hide a wrong start or a wrong sweep count; the tests iterate to convergence with one choice.",
  ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/solverops_ilu0.cpp", "src/solverops_sgs.cpp", "include/async_initialization_decl.hpp"],
  [("factor initial guess", "src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp"), ("application initial guess", "src/solverops_ilu0.cpp, src/solverops_sgs.cpp")])

p("P04", "Relaxations update each unknown by its row equation",
  "For every matrix, Jacobi, chaotic/Gauss-Seidel, symmetric Gauss-Seidel and level-scheduled relaxation and preconditioning set each unknown (or block) to the inverse of its diagonal entry applied to the right-hand side minus the off-diagonal row entries times the current unknowns, with strictly-lower and strictly-upper parts used in the forward and backward sweep respectively. Every row is visited exactly once per sweep, forward sweeps ascending and backward sweeps descending.",
  ["inputs"], "every square sparse matrix with non-zero diagonal, vector, block size and storage order",
  "Only the scalar asynchronous variants on a few matrices are run, to convergence; block, level and chaotic variants have no test.",
  ["src/kernels/kernels_relaxation.hpp", "src/kernels/kernels_sgs.hpp", "src/solverops_jacobi.cpp", "src/solverops_sgs.cpp", "src/relaxation_chaotic.cpp", "src/solverops_levels_sgs.cpp"],
  [("row updates", "src/kernels/kernels_sgs.hpp, src/kernels/kernels_relaxation.hpp"), ("drivers", "apply and apply_relax in src/solverops_sgs.cpp, src/solverops_jacobi.cpp, src/relaxation_chaotic.cpp, src/solverops_levels_sgs.cpp")])

p("P05", "Incomplete factorisation evaluates its fixed-point equations",
  "Each factor entry is computed from the (optionally symmetrically scaled) matrix entry minus the sum of products of already-stored lower and upper factor entries on the matching sparsity positions, divided by the column's diagonal for entries below the diagonal and stored as is on or above it. Block factors use the matrix versions in the correct multiplication order, and the diagonal blocks are stored inverted exactly once after the last sweep.",
  ["inputs", "configurations"], "every matrix with full diagonal, scaling choice, block size and storage order",
  "Tests factor two small matrices to convergence, unscaled; a wrong term, index or multiplication order in the block or scaled paths is never run.",
  ["src/kernels/kernels_ilu0_factorize.hpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/ilu_pattern.cpp"],
  [("scalar entry update", "src/kernels/kernels_ilu0_factorize.hpp"), ("block entry update", "src/async_blockilu_factor.cpp"), ("matching positions", "src/ilu_pattern.cpp")])

p("P06", "Triangular application inverts the computed factors",
  "Applying an incomplete factorisation solves the unit-lower system with the scaled right-hand side and then the upper system with its result, using the stored factor (pre-inverted diagonal blocks in the block case), and scales the result by the same symmetric scaling exactly when the factorisation was scaled. The asynchronous, sequential and level-scheduled variants all use these equations on the same factor.",
  ["inputs", "configurations"], "every factor, right-hand side, scaling choice, variant, block size and storage order",
  "Only unscaled scalar and 4x4 column-major application is exercised, to convergence tolerance.",
  ["src/kernels/kernels_ilu_apply.hpp", "src/solverops_ilu0.cpp", "src/solverops_levels_ilu0.cpp"],
  [("row solves", "src/kernels/kernels_ilu_apply.hpp"), ("drivers", "src/solverops_ilu0.cpp, src/solverops_levels_ilu0.cpp")])

p("P07", "Matrix-vector operations compute the matrix product",
  "For every stored matrix and vectors, the matrix-vector product, its scaled-and-shifted form, and the variants on raw, block-row, scalar-row and column-compressed storage compute exactly a*A*x (+ b*y) over all stored entries, each used once with its own row and column. Block storage order and block size do not change the result, and shifted products read y only as the term to add.",
  ["inputs"], "every matrix, vector, coefficient, block size, storage order and format",
  "Tests multiply a handful of matrices at one or two block sizes with fixed coefficients.",
  ["src/blas/matvecs.cpp", "src/blockmatrices.ipp", "src/blas/blas1.cpp"],
  [("row and column kernels", "src/blas/matvecs.cpp"), ("matrix classes", "src/blockmatrices.ipp")])

p("P08", "Asynchronous sweeps publish each component once, from its owner",
  "In every threaded asynchronous sweep each component (scalar, vector block or factor block) is written by exactly one loop iteration, in a single store of its final value; no partial or intermediate value of it is ever visible to other threads. Everything else the iteration writes is private to it.",
  ["schedules"], "every interleaving of the threads, for every asynchronous sweep of every method and block size",
  "Tests run one thread mostly; an intermediate value published early is seen only in rare interleavings and still converges.",
  ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/kernels/", "src/solverops_sgs.cpp", "src/solverops_ilu0.cpp", "src/relaxation_chaotic.cpp"],
  [("owner-iteration stores", "omp for sweeps in src/async_*ilu_factor.cpp, src/solverops_*.cpp, src/relaxation_chaotic.cpp")])

p("P09", "Threaded loops have no unintended data races",
  "Outside the deliberately asynchronous sweeps, no two iterations of a threaded loop write the same memory, and none reads what another writes, except through a reduction or an atomic update. Concurrent block insertion into an assembled matrix adds every contribution.",
  ["schedules"], "every thread count and interleaving, for every threaded loop of the library and concurrent assembly",
  "A race shows only under particular schedules; tests use one or a few threads on small data.",
  ["src/"], [("worksharing loops", "every omp parallel/for in src/"), ("concurrent assembly", "src/blockmatrices.ipp updateBlock, updateDiagBlock")])

p("P10", "Dependent phases and dependency levels are separated",
  "A threaded phase that consumes what an earlier phase produced starts only after that phase is complete on all threads, and level-scheduled methods process levels strictly in order with a full synchronisation between consecutive levels. Methods documented as sequential in build or application run that part on a single thread.",
  ["schedules", "configurations"], "every thread count and interleaving, every method",
  "A missing barrier produces wrong values only in rare schedules and level methods have no test at all.",
  ["src/solverops_levels_sgs.cpp", "src/solverops_levels_ilu0.cpp", "src/solverops_ilu0.cpp", "src/solverops_sgs.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp"],
  [("level loops", "src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp"), ("phase boundaries", "apply and compute of all preconditioners")])

p("P11", "Applying a preconditioner leaves its inputs unchanged",
  "Applying any preconditioner, relaxation or matrix product changes only the output vector and internal scratch space: the right-hand side, the matrix, the computed preconditioner data and the settings stay as they were. Consequently repeated application with the same input starts from the same state.",
  ["inputs", "histories"], "every method, block size, input vector and sequence of applications",
  "Tests compare outputs of single applications and never re-check inputs or stored data afterwards.",
  ["src/solverops_*.cpp", "src/relaxation_chaotic.cpp", "src/blas/matvecs.cpp", "src/blockmatrices.ipp"],
  [("application entry points", "apply and apply_relax of all preconditioners; apply and gemv3 of all matrices")])

p("P12", "Recomputing refreshes everything derived from the matrix",
  "Whenever the preconditioner is recomputed after the matrix values change, every stored quantity derived from matrix values (inverse diagonals, scaling vectors, factors, converted or reordered copies) is recomputed from the current values. Storage is allocated at most once per structure and nothing stale from the previous computation influences the result.",
  ["histories"], "every sequence of value changes and recomputations on one object",
  "Tests compute each preconditioner once.",
  ["src/solverops_jacobi.cpp", "src/solverops_sgs.cpp", "src/solverops_ilu0.cpp", "src/relaxation_chaotic.cpp", "src/solverops_levels_sgs.cpp", "src/solverops_levels_ilu0.cpp"],
  [("recompute", "compute() of every preconditioner")])

p("P13", "Everything acquired is released exactly once",
  "Every block of memory an operation or object acquires is released exactly once, by the deallocation routine matching its allocation, on every exit of the operation (including exceptions) or at destruction of the owner. Nothing is used after release.",
  ["inputs", "histories", "fault_sequences"], "every object lifetime, copy, move, early return and exception of the library",
  "Leaks and mismatched releases do not fail functional tests; exception exits are never taken.",
  ["src/", "include/arrayview.hpp", "include/scmatrixdefs.hpp", "include/srmatrixdefs.hpp"],
  [("owning objects", "destructors, alloc/destroy helpers in src/rawsrmatrixutils.cpp, include/arrayview.hpp"), ("scratch buffers", "local allocations in src/")])

p("P14", "Borrowed matrix data is never freed or duplicated as owned",
  "An object that wraps data supplied by the caller never frees or reallocates it, and an object that owns its data never shares ownership: copying, moving, resizing and wrapping keep exactly one owner per buffer. A moved-from or re-assigned object releases what it owned and nothing else.",
  ["histories"], "every sequence of wrap, copy, move, resize and destroy operations",
  "Tests wrap and destroy once, without copies, moves or resizes of views.",
  ["include/arrayview.hpp", "include/srmatrixdefs.hpp", "src/blockmatrices.ipp", "src/rawsrmatrixutils.cpp"],
  [("owner flags", "include/arrayview.hpp"), ("wrapping constructors", "src/blockmatrices.ipp, include/srmatrixdefs.hpp")])

p("P15", "A constructed matrix describes itself consistently",
  "However a matrix object is built (from a pattern, by wrapping arrays, by copying, by conversion, by default), its row count, entry counts, row pointers, row ends and diagonal positions are all set and agree with each other and with the given data before use. Assembly operations add or set each given block entry at its own row and column.",
  ["inputs", "histories"], "every construction path, block size, pattern and assembly sequence",
  "Most construction paths are never called by tests and unset members read as zero by luck.",
  ["src/blockmatrices.ipp", "include/srmatrixdefs.hpp", "src/rawsrmatrixutils.cpp", "src/coomatrix.cpp"],
  [("constructors and assembly", "src/blockmatrices.ipp"), ("raw structures", "include/srmatrixdefs.hpp, src/rawsrmatrixutils.cpp")])

p("P16", "Array accesses stay within the arrays they index",
  "For every well-formed matrix, each access uses an index of the right kind for its array (row, column or entry position, scaled by block size where the array is scalar) and every internal buffer is allocated with enough elements for all the accesses made to it. Zero-row and single-row matrices are included.",
  ["inputs"], "every well-formed matrix, block size and method",
  "Out-of-bounds reads of neighbouring heap memory usually go unnoticed on the few test matrices.",
  ["src/"], [("kernels and drivers", "all array accesses in src/"), ("buffer allocations", "all allocations in src/")])

p("P17", "Inverse reordering and scaling undo the forward ones",
  "For every permutation and positive scaling, applying a row or column reordering or scaling to a vector or matrix in the forward direction and then in the inverse direction restores the original. Forward reordering puts at each new position the entry the permutation names, and combined operations are undone in the opposite order.",
  ["inputs"], "every permutation pair, scaling, vector and matrix, block size 1 and blocked",
  "Tests check one symmetric permutation; self-inverse or symmetric cases hide a wrong direction.",
  ["src/reorderingscaling.cpp", "include/reorderingscaling.hpp"],
  [("reordering and scaling", "src/reorderingscaling.cpp")])

p("P18", "Format conversions preserve every entry",
  "Converting between coordinate, scalar-row, block-row and column-compressed storage, and copying a matrix, keeps every entry at its row and column with its value, adds nothing but explicit zeros inside stored blocks, and yields sorted rows with correct row pointers and diagonal positions.",
  ["inputs"], "every matrix, block size and storage order",
  "Tests convert a few matrices and compare against stored files.",
  ["src/coomatrix.cpp", "src/scmatrix.cpp", "src/rawsrmatrixutils.cpp"],
  [("conversions", "src/coomatrix.cpp convertToCSR, convertToBSR; src/scmatrix.cpp; src/rawsrmatrixutils.cpp")])

p("P19", "Malformed matrix files are rejected",
  "Reading a matrix file that is missing, truncated, of an unsupported kind, or contains indices outside the declared dimensions raises an error; it never yields a partially read matrix or undefined behaviour. Every documented kind of file header is recognised.",
  ["inputs", "fault_sequences"], "every input file, including truncation at any point",
  "Tests read only well-formed files.",
  ["src/coomatrix.cpp", "src/utils/blasted_petsc_io.cpp", "src/utils/util_petsc_io.c"],
  [("reader", "src/coomatrix.cpp readMatrixMarket and header parsing")])

p("P20", "Schedules and patterns respect the matrix dependencies",
  "The level schedule puts every row in exactly one level, after all rows it depends on through strictly lower entries; column adjacency lists exactly the rows that store an entry in each column; and factorisation and approximate-inverse patterns pair exactly the positions whose row, column and intermediate index match.",
  ["inputs"], "every square sparse matrix pattern",
  "Tests compare the result for one or two small patterns.",
  ["src/levelschedule.cpp", "src/adjacency.cpp", "src/ilu_pattern.cpp", "src/sai.cpp"],
  [("level schedule", "src/levelschedule.cpp"), ("adjacency", "src/adjacency.cpp"), ("patterns", "src/ilu_pattern.cpp, src/sai.cpp")])

p("P21", "The PETSc interface reports errors and balances array access",
  "Every error code returned by a PETSc call or by another interface function is checked and passed on, and every vector or matrix array obtained is handed back on every successful path, read-only arrays being never written. Every interface context field is given a value before it is read, and user-supplied factories and settings are passed down to every nested solver.",
  ["inputs", "configurations", "fault_sequences"], "every PETSc failure, option set and nesting of solvers",
  "The interface is not even compiled in the test build, and injected PETSc failures are out of the tests' reach.",
  ["src/blasted_petsc.cpp", "src/utils/blasted_petsc_io.cpp", "include/blasted_petsc.h"],
  [("callbacks and set-up", "src/blasted_petsc.cpp"), ("matrix input", "src/utils/blasted_petsc_io.cpp")])

p("P22", "Methods advertised as relaxations can relax, and only those",
  "A preconditioner that says it can be used as a relaxation performs a relaxation when asked; one that says it cannot raises an exception (or, for the identity, does nothing) and never silently returns a wrong iterate. The dimension it reports is the number of scalar unknowns of its matrix.",
  ["configurations"], "every method and block size",
  "No test asks a method whether it can relax, and most relaxations are never called.",
  ["include/solverops_base.hpp", "include/solverops_*.hpp", "include/relaxation_*.hpp", "src/solverops_*.cpp"],
  [("advertisement and behaviour", "relaxationAvailable, apply_relax and dim of every preconditioner")])

p("P23", "Every supported build configuration provides every method",
  "For any extra block size chosen when the library is built (one not built in already), the library compiles and links, its factory creates every method for that size in both block storage orders as it does for a built-in size, and the matrix containers, views and conversions exist for it. Debug and release builds, a build without OpenMP and a build with the matching library compile and provide every symbol they use as well. Sizes neither built in nor chosen are refused by the factory.",
  ["configurations"], "every extra block size chosen at build time and every documented variant of the build",
  "The tests are built for the default configuration only.",
  ["src/solverfactory.cpp", "CMakeLists.txt", "src/"],
  [("explicit instantiations", "template instantiations at the end of each file in src/, those under BUILD_BLOCK_SIZE included"), ("factory", "SRFactory::create_preconditioner")])

p("P24", "Factor diagnostics measure what they report",
  "When diagnostics are requested, the reported factor remainder and diagonal-dominance figures are computed from the current (scaled) matrix and the computed factor by their documented formulas, and requesting them does not change the computed preconditioner.",
  ["inputs", "configurations"], "every matrix, method, scaling choice and block size",
  "No test requests diagnostics.",
  ["src/matrix_properties.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/solverops_ilu0.cpp", "include/preconditioner_diagnostics.hpp"],
  [("diagnostics", "src/matrix_properties.cpp, remainder functions in src/async_ilu_factor.cpp and src/async_blockilu_factor.cpp")])

p("P25", "Asynchronous iterations converge to the sequential result",
  "For matrices on which the asynchronous fixed-point iterations converge, enough sweeps give the same factorisation or solution as the sequential algorithm to round-off, under every thread schedule.",
  ["schedules", "inputs"], "every schedule and every suitable matrix",
  "Convergence is asymptotic in the number of sweeps and depends on numerical values and schedules.",
  ["src/async_ilu_factor.cpp", "src/solverops_ilu0.cpp", "src/solverops_sgs.cpp"],
  [("asynchronous sweeps", "src/async_ilu_factor.cpp, src/solverops_ilu0.cpp, src/solverops_sgs.cpp")])

p("P26", "Matching-based ordering takes over the matching library's result",
  "For each job of the external matching library, the library is given the whole matrix in one-based column form with work arrays of the documented size; a failure it reports is never used as a result; otherwise the column permutation, its inverse and, for the scaling job, the row and column factors are exactly those the library determined, so that the reordered and scaled matrix has the diagonal the library's documentation promises.",
  ["inputs"], "every matrix and every job",
  "The component needs an external matching library that is not present in the build, so no test runs it.",
  ["src/reorderingscaling.cpp", "include/reorderingscaling.hpp"],
  [("matching-based ordering", "MC64::compute and getWorkSizes in src/reorderingscaling.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
