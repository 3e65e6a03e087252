"""The statements of the properties (properties.jsonl is generated from here by
lib/generate.py)."""

AMGE = "include/mfmg/common/amge.templates.hpp"
HOST = "include/mfmg/dealii/amge_host.templates.hpp"
HIER = "include/mfmg/common/hierarchy.hpp"
HELP = "source/dealii/dealii_hierarchy_helpers.cc"
MFHELP = "source/dealii/dealii_matrix_free_hierarchy_helpers.cc"
TOP = "source/dealii/dealii_trilinos_matrix_operator.cc"
SOP = "source/dealii/dealii_matrix_operator.cc"
MFOP = "source/dealii/dealii_matrix_free_operator.cc"
SMO = "source/dealii/dealii_smoother.cc"
MFSMO = "source/dealii/dealii_matrix_free_smoother.cc"
SOLVER = "source/dealii/dealii_solver.cc"
LAN = "include/mfmg/common/lanczos.templates.hpp"
DEFL = "include/mfmg/common/lanczos_deflatedop.templates.hpp"
ANA = "include/mfmg/dealii/anasazi.templates.hpp"
MV = "include/mfmg/dealii/anasazi_traits.hpp"
UTIL = "source/common/utils.cc"
UTILH = "include/mfmg/common/utils.hpp"
DUTIL = "include/mfmg/dealii/dealii_utils.hpp"
DUTILS = "source/dealii/dealii_utils.cc"
EVAL = "source/dealii/dealii_mesh_evaluator.cc"
MFEVAL = "source/dealii/dealii_matrix_free_mesh_evaluator.cc"

STATEMENTS = []


def st(pid, title, statement, over, quant, why, files, mechanism, state=(),
       observe=(), hook=None):
    a = dict(files=list(files),
             mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    STATEMENTS.append(dict(id=pid, title=title, statement=statement,
                           quantifier=dict(over=list(over), text=quant),
                           why_tests_cant=why, anchors=a))


PROBLEMS = ("every mesh (2D and 3D, structured or not, any distribution over "
            "MPI ranks, on any communicator), finite element degree, "
            "coefficient, set of Dirichlet boundary ids and agglomeration "
            "parameters")

st("C01", "Agglomerates partition the locally owned cells",
   "After building agglomerates every locally owned cell carries exactly one "
   "agglomerate number, the numbers in use on a rank are exactly 1..n where n "
   "is the returned count (every agglomerate is non-empty), and cells that are "
   "not locally owned carry 0. Block agglomerates of size nx x ny(x nz) never "
   "contain more cells than the block allows and are the exact blocks on a "
   "structured serial mesh which they tile. The result depends only on the "
   "mesh and the parameters, not on agglomerates built before.",
   ["inputs", "configurations", "histories"],
   "for all " + PROBLEMS + ", and for every sequence of builds on one mesh",
   "The tests build agglomerates on three box meshes with fixed parameters and "
   "compare the flags with a gold vector; unstructured meshes, remainders of "
   "the blocks, more agglomerates than cells and rebuilds are not exercised.",
   [AMGE], [("build_agglomerates: block, zoltan and metis branches", AMGE)],
   [("user index", "agglomerate number of a cell", AMGE)],
   ["cell user indices after each build"])
st("C02", "Boundary and halo patches of the agglomerates are exact",
   "For every agglomerate, in the order of their numbers, the boundary patch "
   "consists of exactly those of its cells that share at least one vertex with "
   "a cell outside of it, and the halo patch of exactly the cells outside of "
   "it (of other agglomerates or ghost cells) that share at least one vertex "
   "with one of its cells. Both are lists of cell indices in increasing order "
   "without repetitions, and an agglomerate without neighbours has two empty "
   "ones.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", and all agglomerate shapes that occur",
   "The tests check the number of patches and hard-coded lists on one box mesh.",
   [AMGE], [("build_boundary_agglomerates", AMGE),
            ("vertex to cell adjacency and ghost cells", AMGE)],
   [], ["the returned pair of vectors of cells"])
st("C03", "Extracted agglomerate meshes and dof maps mirror the global mesh",
   "The mesh extracted for an agglomerate has one cell for each of its cells "
   "with identical vertices, its map from extracted to global cells is a "
   "bijection onto them, and faces keep the boundary ids of the domain "
   "boundary. The index map sends each degree of freedom of a problem "
   "distributed on the extracted mesh to the global degree of freedom with the "
   "same support point and shape function, without repetitions.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", for agglomerates and for halo patches",
   "The tests compare one extracted mesh of a 2D box with gold data; "
   "unstructured cells, rotated faces, several boundary ids, ghost cells and "
   "3D quadratic elements are not sampled.",
   [AMGE], [("build_agglomerate_triangulation", AMGE),
            ("copy_boundary_ids / cell map", AMGE),
            ("compute_dof_index_map", AMGE)])
st("C04", "Local eigensolver returns the smallest eigenpairs, or throws",
   "For every agglomerate and for each of the eigensolvers the returned "
   "vectors are normalised, vanish at constrained degrees of freedom, are "
   "linearly independent and satisfy A v = lambda v for the agglomerate "
   "operator (zero shift on the unconstrained dofs) within the requested "
   "tolerance, and exactly the requested number is returned with the diagonal "
   "of the agglomerate operator and its index map. With the direct and "
   "shift-and-invert eigensolvers they are the smallest eigenpairs of the "
   "unconstrained part. When a solver cannot deliver them it throws instead of "
   "returning wrong pairs.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", all eigensolvers (arpack, lanczos, anasazi, "
   "lapack) with their parameters, matrix-based and matrix-free evaluation, "
   "and every scaling of the operator",
   "The tests compare a diagonal 3x3 or 5x5 operator and one mesh; they cannot "
   "cover clustered spectra, constraints, scalings and eigensolver settings.",
   [HOST, LAN, ANA],
   [("compute_local_eigenvectors (matrix and matrix-free overloads)", HOST),
    ("lanczos_compute_eigenvalues_and_eigenvectors", HOST),
    ("anasazi_compute_eigenvalues_and_eigenvectors", HOST)])
st("C05", "Restrictor: rows are weighted local eigenvectors, layout and weights",
   "The restrictor has exactly (number of agglomerates) x (number of "
   "eigenvectors) rows, those of a rank are owned by it in the order of its "
   "agglomerates, and the row of an eigenvector has only entries at the dofs "
   "of its agglomerate. Each entry is the entry of the local eigenvector "
   "multiplied by the share of the agglomerate in the diagonal of the global "
   "operator at that dof; the shares of all agglomerates (over all ranks) at a "
   "dof sum up to one.",
   ["inputs", "configurations", "schedules"],
   "for all " + PROBLEMS + ", eigensolvers, numbers of eigenvectors, MPI ranks",
   "The tests check one restrictor in serial/parallel against a weight "
   "identity on a structured mesh; they never look at unstructured, "
   "variable-coefficient, constrained or multi-rank layouts entry by entry.",
   [HOST, AMGE, HELP, MFHELP],
   [("compute_restriction_sparse_matrix", AMGE),
    ("compute_restriction_sparsity_pattern", AMGE),
    ("setup_restrictor / copy_local_to_global", HOST)],
   [("eigenvectors, diagonal elements, dof indices maps",
     "per agglomerate results collected by the work stream", HOST)])
st("C06", "The coarse problem is the Galerkin product and its exact correction",
   "The coarse operator of a two-level hierarchy equals R A R^T for its "
   "restrictor R and global operator A; with a direct coarse solver and no "
   "smoothing one application gives exactly R^T (R A R^T)^{-1} R b, the energy "
   "projection of the solution onto the coarse space.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", both evaluation modes, with and without the fast "
   "evaluation of A R^T",
   "The tests look at convergence factors of a handful of problems with "
   "tolerances which also accept wrong coarse operators.",
   [HIER, HELP, MFHELP, TOP],
   [("hierarchy constructor: A R^T, then R (A R^T)", HIER),
    ("restriction and prolongation in the cycle", HIER)])
st("C07", "Fast A R^T equals the product of the operator and the restrictor",
   "With the fast evaluation enabled, the matrix which the setup computes from "
   "local patch evaluations equals A R^T of the global operator and the "
   "transposed restrictor up to the accuracy of the eigenpairs, in serial and "
   "in parallel, and so does the hierarchy built from it.",
   ["inputs", "configurations", "schedules"],
   "for all " + PROBLEMS + " in which constrained dofs can be recognised on "
   "every cell that contains them, all eigensolvers, both modes, any number of "
   "ranks",
   "The tests compare the two products on one box mesh with fixed parameters.",
   [HELP, MFHELP, HOST],
   [("fast_multiply_transpose (matrix-based)", HELP),
    ("fast_multiply_transpose (matrix-free)", MFHELP),
    ("compute_patch / delta correction matrix", HOST)])
st("C08", "Distributed matrix operators obey the rules of linear algebra",
   "For every distributed sparse matrix applying an operator, its transpose, "
   "products of two operators, the product with a transposed operator and the "
   "transpose of an operator equal the mathematical result, whatever the "
   "distribution of rows and columns over the ranks; vectors built for domain "
   "and range have the layouts of columns and rows. Reported sizes, entry "
   "counts and complexities are those of the global matrix, and no operand "
   "changes.",
   ["inputs", "configurations"],
   "for all sparse matrices (rectangular, empty rows, empty ranks) and all "
   "distributions over the ranks",
   "The tests use a few structured matrices and compare with the same library "
   "calls.",
   [TOP, SOP, DUTIL, DUTILS],
   [("apply / multiply / multiply_transpose / transpose", TOP),
    ("serial operator", SOP), ("extract_row", DUTIL)])
st("C09", "The matrix-free operator acts like the assembled matrix",
   "A matrix-free operator applied to any vector gives the action of the "
   "assembled global operator, its product with a transposed sparse matrix has all the entries "
   "of the assembled product and layouts that compose, its diagonal is the "
   "assembled one. Operations that a matrix-free operator cannot provide throw "
   "instead of returning something.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", all vectors and right-hand matrices of any scale",
   "The tests multiply with one matrix on one mesh.",
   [MFOP, MFEVAL],
   [("apply / multiply_transpose / build vectors", MFOP),
    ("refused operations", MFOP)])
st("C10", "Each smoothing step is x + B^{-1}(b - A x) for the configured B",
   "One application of a smoother changes x into x + B^{-1}(b - A x), where B "
   "is the configured method - Jacobi, forward or symmetric "
   "Gauss-Seidel (the default) or ILU on the locally owned block, or the "
   "Chebyshev polynomial of the configured degree and range for matrix-free "
   "operators - with the names accepted in any case. The right-hand side and "
   "the parameters do not change, a solution is a fixed point, and symmetric "
   "Gauss-Seidel in serial never increases the energy norm of the error.",
   ["inputs", "configurations"],
   "for all nonsingular-diagonal matrices, parameters, initial guesses (of any "
   "magnitude) and distributions over the ranks, with other smoothers in use",
   "The tests apply each smoother to one Laplacian and compare residual norms "
   "with gold values.",
   [SMO, MFSMO], [("DealIISmoother::apply / initialize", SMO),
                  ("DealIIMatrixFreeSmoother::apply", MFSMO)])
st("C11", "The coarse solver solves the system it was given, as configured",
   "With the direct solver (the default) one application returns the solution "
   "of the coarse system up to roundoff, for every right-hand side and whatever "
   "the output vector contained before. With the multigrid solver an "
   "application is the one which the user's parameters define on top of the "
   "smoothed-aggregation defaults. Neither the right-hand side, nor the "
   "parameters, nor the matrix are changed.",
   ["inputs", "configurations", "histories"],
   "for all symmetric positive definite matrices, distributions, parameters and "
   "sequences of right-hand sides",
   "The tests solve one Laplacian per solver type with the default parameters.",
   [SOLVER, UTIL], [("DealIISolver constructor and apply", SOLVER)])
st("C12", "The V-cycle applies its textbook formula, as a linear operator",
   "One application with any number of pre- and post-smoothing steps equals "
   "the textbook two-level cycle started from zero, and it is linear in the "
   "right-hand side (of any magnitude), independent of the previous content of "
   "the output vector, even infinities and NaNs, "
   "and leaves the right-hand side unchanged; with a symmetric smoother it is a "
   "symmetric positive definite operator. A hierarchy of one level applies "
   "exactly the coarse solver. This holds with direct and with ML coarse "
   "solvers, and a timer counts every setup and every application once.",
   ["inputs", "configurations", "histories"],
   "for all " + PROBLEMS + ", smoothing steps, smoothers, right-hand sides and "
   "sequences of applications",
   "The tests observe only the convergence rate of a few configurations.",
   [HIER, "include/mfmg/common/level.hpp"],
   [("apply: smoothing, residual, restriction, correction", HIER),
    ("vmult / is_preconditioner", HIER)])
st("C13", "As a solver the cycle has the solution as fixed point and contracts",
   "Used as a stand-alone iteration (not as preconditioner) the cycle starts "
   "from the given vector, keeps the solution of A x = b fixed, depends in an "
   "affine way on the given vector, whatever its size, and with "
   "symmetric Gauss-Seidel smoothing every iteration strictly reduces the "
   "energy norm of the error, for both evaluation modes.",
   ["inputs", "configurations", "histories"],
   "for all " + PROBLEMS + " and every initial guess and right-hand side",
   "The tests run 20 iterations from one random vector on a few problems and "
   "compare the rate with gold data.",
   [HIER, SMO, MFSMO], [("apply with is preconditioner false", HIER)])
st("C14", "Preconditioned CG converges to the solution",
   "Conjugate gradients preconditioned by a hierarchy with a symmetric smoother "
   "reduces the residual by nine orders of magnitude within 100 iterations on "
   "problems of moderate size and contrast, for every mesh, agglomeration, "
   "eigensolver and number of ranks, and what it returns solves the assembled "
   "system (by the recomputed residual).",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", both modes, all smoothers that are symmetric",
   "The tests solve single problems; robustness over coefficients, meshes and "
   "agglomerates is a claim about every input.",
   [HIER, HELP, MFHELP], [("vmult as preconditioner", HIER)])
st("C15", "Matrix-free and matrix-based setups give the same hierarchy",
   "For the same problem, agglomeration and eigensolver parameters the "
   "matrix-free and the matrix-based setups give the same operator, "
   "restrictors that agree up to signs and the accuracy of the eigensolver, "
   "and the same coarse correction.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + " on which both modes are possible",
   "The tests run the two modes on separate gold data.",
   [HOST, MFHELP, HELP, MFEVAL],
   [("two compute_local_eigenvectors overloads", HOST),
    ("build_restrictor of both helpers", MFHELP)])
st("C16", "Results do not depend on threads or their schedule",
   "With any number of worker threads and any schedule the setup gives valid "
   "local eigenpairs in the rows of the right agglomerates and the same "
   "restrictor and A R^T as with one thread (up to signs and eigenspaces of "
   "multiple eigenvalues); it evaluates every agglomerate exactly once, never "
   "uses one clone of the user's evaluator from two threads, and neither "
   "crashes nor hangs. The workers do not access the same memory without "
   "synchronisation unless all of them only read it (no data race).",
   ["schedules", "inputs", "configurations"],
   "for all interleavings of the worker threads, thread counts, " + PROBLEMS,
   "The tests limit the number of threads to one because some cases did not "
   "work with more, and sample one schedule elsewhere.",
   [HOST, HELP, MFHELP],
   [("WorkStream over agglomerates", HOST), ("clones of the evaluator", HOST),
    ("serialized calls of the Fortran eigensolver", HOST)],
   [("copy data", "results of a worker before they are copied", HOST)],
   ["entry and exit of the evaluator's agglomerate evaluation"])
st("C17", "Rebuilding and other uses leave a hierarchy unchanged",
   "A hierarchy gives the same result after other hierarchies, restrictors or "
   "agglomerates were built from the same evaluator, mesh and parameters; "
   "building it again from the same objects gives the same cycle. If the "
   "operator or the mesh behind the evaluator changed in the meantime, a new "
   "hierarchy is the one of the current operator and mesh. Setting up and "
   "applying two levels does not change the user's parameter tree.",
   ["histories", "configurations", "inputs"],
   "for all programs of builds, applications and changes of the operator or "
   "the mesh of a few hierarchies",
   "The tests build each hierarchy once.",
   [HIER, HOST, HELP, MFHELP],
   [("hierarchy constructor", HIER), ("user data of the mesh", AMGE)])
st("C18", "Lanczos: accurate, sorted, deflated eigenpairs, or an exception",
   "For every symmetric operator the Lanczos solver returns the requested "
   "number of eigenpairs in ascending order, with residuals within the "
   "requested accuracy relative to the operator, unit-norm and independent "
   "vectors, which are the smallest it can resolve; the smallest eigenvalue is "
   "always found; the deflated variant also finds eigenvalues of higher "
   "multiplicity. A call that cannot deliver throws; results do not depend on "
   "the scale of the operator and are repeatable.",
   ["inputs", "configurations"],
   "for all symmetric operators (clustered, multiple, scaled spectra), starting "
   "vectors and solver parameters that permit convergence",
   "The tests use a diagonal operator with a few multiplicities and sizes.",
   [LAN, DEFL], [("lanczos and details_compute_eigenpairs", LAN),
                 ("deflation cycles", LAN)])
st("C19", "Deflation operator: exact orthogonal projection of the operator",
   "After any sequence of additions of deflation vectors the deflated operator "
   "applies P A P (P the orthogonal projector on the complement of all vectors "
   "added so far, dependent ones included), projecting a vector is idempotent "
   "and orthogonal to all of them, and without vectors it is the operator "
   "itself; operands are not changed.",
   ["inputs", "histories"],
   "for all operators, vectors and sequences of additions",
   "The tests do not use the deflation operator on its own.",
   [DEFL], [("add_deflation_vecs / deflate / vmult", DEFL)])
st("C20", "LOBPCG and its multivector: algebra, aliasing, accurate eigenpairs",
   "Every operation of the multivector used by LOBPCG (clone, copy, view by "
   "indices, linear combination, products, dots, norms, scaling, assignment "
   "and initialisation) has the effect of the same operation on plain arrays, "
   "also when output and input are the same object. The eigensolver returns "
   "accurate, ascending, independent smallest eigenpairs or throws.",
   ["programs", "inputs"],
   "for all sequences of operations on multivectors and all symmetric operators",
   "The tests solve one diagonal eigenproblem; most of the operations are only "
   "exercised in the order that LOBPCG happens to use.",
   [MV, ANA, "include/mfmg/dealii/multivector.hpp"],
   [("MultiVecTraits specialisation", MV), ("AnasaziSolver::solve", ANA)])
st("C21", "Parameter trees are converted without loss",
   "Converting a property tree to a Trilinos parameter list keeps every entry "
   "with its name, nesting and value: booleans, integers and floating point "
   "numbers get those types, everything else stays a string with all its "
   "characters, and nothing else appears in the list.",
   ["inputs"],
   "for all trees: names and values with any characters, nesting, numbers at "
   "the limits of their type, empty trees",
   "The test converts one tree with five entries.",
   [UTIL], [("ptree2plist", UTIL)])
st("C22", "Sorting permutations and permuting in place are exact",
   "The sorting permutation of two equally long vectors is a permutation of "
   "0..n-1 that orders them lexicographically by (first, second), and applying "
   "a permutation in place moves the element of the permuted index to each "
   "position and leaves the permutation unchanged.",
   ["inputs"],
   "for all vectors (duplicates, empty, any element type) and permutations",
   "The test permutes one short vector.",
   [UTILH], [("sort_permutation / apply_permutation_in_place", UTILH)])
st("C23", "Invalid or unsupported configurations fail loudly",
   "An unknown eigensolver, smoother, coarse solver or partitioner, an "
   "eigensolver which the evaluation mode does not support, more eigenvectors "
   "than an agglomerate can provide, or an operation which an operator does not "
   "implement raises an exception on every rank, and never yields a hierarchy.",
   ["configurations", "inputs"],
   "for all single defects in otherwise valid configurations",
   "The tests check a few of the exceptions in serial.",
   [HIER, HOST, AMGE, SMO, SOLVER, MFHELP, MFOP],
   [("selection by name", SMO), ("ASSERT_THROW and ASSERT_THROW_NOT_IMPLEMENTED",
                                 "include/mfmg/common/exceptions.hpp")])
st("C24", "Written files describe all ranks and the whole state",
   "The agglomerate output names the files of every rank exactly once, each "
   "file lists the cells of its rank with their agglomerate numbers and "
   "geometry, and a matrix or vector written to Matrix Market has exactly the "
   "entries of the object, from every rank.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", matrices and ranks",
   "The tests do not read the files back.",
   [AMGE, DUTILS], [("output", AMGE), ("matrix_market_output_file", DUTILS)])
st("C25", "No invalid memory access, undefined behaviour or leak of ownership",
   "Whatever valid program uses the library - setups, cycles, eigensolvers, "
   "operators and utilities in any configuration - it neither reads nor writes "
   "outside of live objects, nor runs into undefined behaviour or a violated "
   "precondition of the libraries it calls, and it does not use more and more "
   "memory when the same is done again and again.",
   ["inputs", "programs", "configurations", "schedules"],
   "for all valid programs of the kinds in the other properties",
   "The tests run without sanitizers and without the checked containers of the "
   "libraries, where an invalid access is mostly silent.",
   [HOST, AMGE, LAN, DEFL, MV, HELP, MFHELP, HIER],
   [("iterators, raw pointers and views in the whole library", HOST)])
st("C26", "Evaluators deliver the diagonal and admissible initial guesses",
   "The diagonal which an evaluator reports for the matrix-free smoother is the "
   "assembled diagonal on every rank, and the initial guess for a local "
   "eigenproblem vanishes at constrained dofs, is nonzero and finite elsewhere, "
   "in the documented range, and the same for every call with the same "
   "constraints.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + " and constraints",
   "The tests only use them inside of a solver.",
   [EVAL, MFEVAL, MFOP],
   [("set_initial_guess", EVAL), ("get_diagonal", MFEVAL)])
st("C29", "The library keeps to its own contracts and those of deal.II",
   "Whatever valid program uses the library, no assertion of the library and "
   "no precondition which the debug mode of deal.II checks (index ranges, "
   "matching layouts, ghost states, initialised objects) is violated.",
   ["inputs", "programs", "configurations"],
   "for all valid programs of the kinds in the other properties",
   "The tests run in release mode, where these contracts are not checked.",
   [HOST, AMGE, HELP, MFHELP, HIER, TOP, MFOP],
   [("ASSERT", "include/mfmg/common/exceptions.hpp")])
st("C27", "Device implementation agrees with the host implementation",
   "For the same problem the device (CUDA) operators, smoothers, solvers and "
   "hierarchy give the results of the host implementation up to roundoff.",
   ["inputs", "configurations"],
   "for all problems which both implementations support",
   "Device tests need a GPU and compare single cases.",
   ["source/cuda/cuda_hierarchy_helpers.cu",
    "include/mfmg/cuda/amge_device.templates.cuh"],
   [("device kernels", "source/cuda/cuda_matrix_operator.cu")])
st("C28", "Scaling the problem scales the result and nothing else",
   "Multiplying the operator by a positive factor multiplies the inverse "
   "cycle by that factor (B^{-1} becomes B^{-1}/c) and leaves the coarse space "
   "unchanged: local eigenvectors stay eigenvectors, the smallest ones stay "
   "selected, and no step of the setup begins to fail.",
   ["inputs", "configurations"],
   "for all " + PROBLEMS + ", the eigensolvers with a relative accuracy (ARPACK "
   "and LAPACK), factors of the operator from 1e-9 to 1e9 (1e-30 to 1e30 with "
   "LAPACK), factors of the right-hand side from 2^-700 to 2^600",
   "The tests use one scale; absolute tolerances and shifts pass them.",
   [HOST, LAN, MFOP, HIER],
   [("shifts and bounds in compute_local_eigenvectors", HOST),
    ("relative tolerances", LAN)])
