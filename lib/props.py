"""The properties: which instrumented workloads decide each of them.

Each property has its workloads (harness, ranks, number of generated cases per
tier, instrumentation variant), the rule by which cases are made and counted,
and the notes for MANIFEST.json.  The statements are in properties.jsonl.
"""
import vtu


def wl(harness, nprocs, quick, thorough, variant="plain", threads=1, parts=1,
       **kw):
    d = dict(harness=harness, nprocs=nprocs, quick=quick, thorough=thorough,
             variant=variant, threads=threads, parts=parts)
    d.update(kw)
    return d


def ranks(harness, one, two, three, k=30, **kw):
    """The same generator on one, two, three and five MPI ranks."""
    return [wl(harness, 1, one, one * k, parts=2, **kw),
            wl(harness, 2, two, two * k, **kw),
            wl(harness, 3, three, three * k, **kw),
            wl(harness, 5, max(4, three // 10), three // 10 * k, **kw)]


MESH = ("random boxes, balls, L-shapes, shells and disconnected meshes in 2D "
        "and 3D, distorted and anisotropic, linear and quadratic elements, "
        "four kinds of coefficients, Dirichlet faces by a random mask, "
        "three orderings of the dofs, all three partitioners, 1 to 5 ranks")
REF = ("The oracle is an independent serial reference written for the check "
       "(dense or std::map based, assembled from the same weak form).")
BASE = ["deal.II, Trilinos, p4est, UMFPACK and MPI as installed are trusted",
        "up to 5 MPI ranks; meshes of at most a thousand cells",
        "ghost cells and ranks share memory order of one machine"]

PROPS = {}


# More cases in the quick tier where they are cheap
QUICK = dict.fromkeys(["C19", "C20", "C21", "C22", "C08", "C09", "C10", "C11",
                       "C26", "C12", "C13", "C14", "C15", "C17", "C05",
                       "C28", "C23"], 4)
QUICK.update(dict.fromkeys(["C01", "C02", "C03", "C18", "C04", "C06", "C07"],
                           3))
QUICK.update(C24=2, C25=2, C29=2)


def prop(pid, workloads, rule, note, technique, **kw):
    for w in workloads:
        w["quick"] *= QUICK.get(pid, 1)
    PROPS[pid] = dict(level="exploration", workloads=workloads, rule=rule,
                      note=note, technique=technique,
                      assumptions=BASE + kw.pop("assumptions", []), **kw)


prop("C01", ranks("h_agg", 150, 75, 75),
     f"A case is a mesh ({MESH}) with a partitioner and its parameters; it "
     "builds agglomerates, often several times on the same mesh. Distinct: "
     "mesh, partitioner and parameters differ.",
     "Every flag of every cell is observed after every build and compared with "
     "the definition of a partition; not exhaustive.",
     "runtime monitor of the cell flags under generated meshes and histories")
prop("C02", ranks("h_agg", 150, 75, 75),
     f"A case is a mesh ({MESH}) with agglomerates; the boundary and halo "
     "patches of all agglomerates are compared with a brute-force vertex "
     "adjacency. Distinct: mesh and agglomerates differ.",
     "Exact comparison of the returned sets with a brute-force reference.",
     "differential runtime oracle over generated meshes")
prop("C03", ranks("h_agg", 150, 75, 75),
     f"A case is a mesh ({MESH}) with agglomerates and patches; the extracted "
     "meshes, their boundary ids and the maps to the global dofs are compared "
     "with the global mesh. Distinct: mesh and agglomerates differ.",
     "Exact comparison cell by cell, face by face and dof by dof.",
     "differential runtime oracle over generated meshes")
prop("C24", ranks("h_agg", 60, 30, 30), offline=[vtu.check_stream],
     rule=f"A case writes the agglomerates or a matrix to files ({MESH}); an "
     "offline parser reads the files back. Distinct: the inputs differ.",
     note="The files are parsed by an independent reader and compared with "
     "the state logged by the workload.",
     technique="offline checker over the files and the event log of the run")
prop("C18", [wl("h_common", 1, 400, 12000, parts=4)],
     "A case is a symmetric operator (dense, Laplacian, clustered, multiple, "
     "scaled or deflated spectra) with parameters of the solver. Distinct: "
     "spectrum and parameters differ.",
     "Residuals, norms, order and completeness are judged against a dense "
     "LAPACK spectrum, within the accuracy which the tolerance implies.",
     "runtime oracle on the returned eigenpairs, generated spectra",
     assumptions=["multiple eigenvalues are only required to be found as "
                  "often as the Krylov space can see them"])
prop("C19", [wl("h_common", 1, 400, 12000, parts=4)],
     "A case is an operator with a sequence of deflation vectors added in one "
     "or several steps. Distinct: sizes and sequences differ.",
     "Every application is compared with the projector formula.",
     "differential runtime oracle over generated histories")
prop("C20", [wl("h_common", 1, 300, 9000, parts=4)],
     "A case is a sequence of multivector operations including views, aliases "
     "and clones, or an eigenproblem for LOBPCG. Distinct: programs differ.",
     "Every operation is mirrored on a plain array model.",
     "model-based runtime oracle over generated operation sequences")
prop("C21", [wl("h_common", 1, 600, 18000, parts=4)],
     "A case is a property tree of random shape, types and characters. "
     "Distinct: trees differ.",
     "The converted list is compared entry by entry with the tree.",
     "differential runtime oracle over generated trees")
prop("C22", [wl("h_common", 1, 3000, 90000, parts=4)],
     "A case is a vector with or without duplicates and a permutation of it. "
     "Distinct: inputs differ.",
     "The result is compared with the definition.",
     "runtime oracle over generated inputs")
prop("C08", ranks("h_op", 200, 100, 100),
     "A case is a distributed sparse matrix (or one of its products) with "
     "random row and column distributions, empty ranks and empty rows. "
     "Distinct: matrices and distributions differ.",
     f"{REF} Roundoff-sized tolerances.",
     "differential runtime oracle over generated distributed matrices")
prop("C09", ranks("h_op", 80, 40, 40),
     f"A case is a matrix-free operator of a random problem ({MESH}) with "
     "vectors and sparse matrices to multiply with. Distinct: problems differ.",
     f"{REF} Unsupported operations have to throw.",
     "differential runtime oracle against an assembled matrix")
prop("C10", ranks("h_op", 200, 100, 100),
     "A case is a matrix, a smoother with parameters and vectors. Distinct: "
     "matrices and smoothers differ.",
     "The Jacobi, Gauss-Seidel and Chebyshev sweeps are compared with their "
     "definition; ILU by the properties of a stationary method.",
     "differential runtime oracle over generated matrices and parameters")
prop("C11", ranks("h_op", 200, 100, 100),
     "A case is a symmetric positive definite matrix, a coarse solver with "
     "parameters and right-hand sides. Distinct: matrices and parameters "
     "differ.",
     "Direct solvers by the residual; ML by comparison with ML itself set up "
     "from the expected parameter list, and by its accuracy as an iteration.",
     "runtime oracle on residuals and a differential reference")
prop("C26", ranks("h_op", 80, 40, 40),
     f"A case is an evaluator of a random problem ({MESH}). Distinct: "
     "problems differ.",
     f"{REF}",
     "differential runtime oracle over generated problems")
prop("C04", ranks("h_hier", 400, 200, 200),
     f"A case is a problem ({MESH}) with an eigensolver and its parameters; "
     "up to eight agglomerates are solved. Distinct: problem, agglomerates "
     "and eigensolver differ.",
     f"{REF} The residual of every eigenpair, the norm, the support, the "
     "independence and - for resolvable spectra - that they are the smallest.",
     "runtime oracle on local eigenpairs against a dense reference",
     assumptions=["iterative eigensolvers are judged within their tolerance",
                  "LOBPCG may refuse by an exception"])
prop("C05", ranks("h_hier", 400, 200, 200),
     f"A case is a problem ({MESH}) whose restrictor is built and gathered. "
     "Distinct: problem, agglomerates and eigensolver differ.",
     f"{REF} Every entry of every row is judged.",
     "runtime oracle on the gathered restrictor",
     assumptions=["iterative eigensolvers are judged within their tolerance"])
prop("C06", ranks("h_hier", 300, 150, 150),
     f"A case is a problem ({MESH}) with a two-level hierarchy without "
     "smoothing steps. Distinct: problem and parameters differ.",
     f"{REF} The restrictor is taken from the code under test (C05 judges it).",
     "differential runtime oracle on the coarse correction")
prop("C07", ranks("h_hier", 400, 200, 200),
     f"A case is a problem ({MESH}) set up with fast_ap. Distinct: problem, "
     "agglomerates and eigensolver differ.",
     "A R^T is computed independently from the gathered operator and "
     "restrictor; tolerance by the accuracy of the eigenpairs.",
     "differential runtime oracle on the gathered product",
     assumptions=["constrained dofs are recognisable in every cell: no "
                  "reentrant corner with Dirichlet values"])
prop("C12", ranks("h_hier", 300, 150, 150),
     f"A case is a problem ({MESH}) with cycle parameters and vectors. "
     "Distinct: problem and parameters differ.",
     f"{REF}",
     "differential and metamorphic runtime oracle on the V-cycle")
prop("C13", ranks("h_hier", 300, 150, 150),
     f"A case is a problem ({MESH}) with a hierarchy used as a solver. "
     "Distinct: problem and parameters differ.",
     "Fixed point and energy norm are observed in every iteration.",
     "runtime monitor of the iteration (fixed point, energy norm)")
prop("C14", ranks("h_hier", 200, 100, 100),
     f"A case is a problem ({MESH}) solved by CG with the hierarchy as "
     "preconditioner. Distinct: problem and parameters differ.",
     "Bounds on the number of iterations are generous; the true residual is "
     "recomputed.",
     "runtime oracle on preconditioned CG")
prop("C15", ranks("h_hier", 200, 100, 100),
     f"A case is a problem ({MESH}) set up in both modes. Distinct: problem "
     "and parameters differ.",
     "Both modes are compared with each other, within the accuracy of "
     "Lanczos.",
     "differential runtime oracle between the two modes")
prop("C16", [wl("h_hier", 1, 160, 4800, threads=8),
             wl("h_hier", 2, 80, 2400, threads=4),
             wl("h_hier", 1, 160, 4800, threads=4, variant="tsan", parts=2)],
     f"A case is a problem ({MESH}) set up with 1 and then several times with "
     "2 to 8 threads with injected delays in the evaluator and with preemptions "
     "of single threads at random instructions (signals whose handler sleeps), "
     "and in a build with ThreadSanitizer. "
     "Distinct: case, threads, delay and the observed concurrency differ.",
     "Every schedule is judged by the oracle of the rows; the monitor in the "
     "evaluator counts overlapping evaluations and misuse of clones. In the "
     "ThreadSanitizer build the scheduler of TBB, which is not instrumented, "
     "is replaced by one with the contract of WorkStream.",
     "ThreadSanitizer; runtime monitor with injected delays and preemptions, "
     "thread and rank counts",
     assumptions=["ThreadSanitizer does not look into deal.II and Trilinos; "
                  "that deal.II writes the same mark whenever the index of a "
                  "cell is read is not counted as a race"])
prop("C17", ranks("h_hier", 200, 100, 100),
     f"A case is a problem ({MESH}) with a hierarchy and a random program of "
     "other uses of the same objects. Distinct: problem and program differ.",
     "The hierarchy is applied again after every step and compared.",
     "runtime monitor over generated histories")
prop("C23", ranks("h_hier", 160, 80, 80),
     "A case is a configuration with one defect. Distinct: defect and problem "
     "differ.",
     "An exception is required, on every rank.",
     "runtime oracle over generated invalid configurations")
prop("C28", ranks("h_hier", 200, 100, 100),
     f"A case is a problem ({MESH}) and the same problem with its operator "
     "scaled by 1e-9 to 1e9 (LAPACK: 1e-30 to 1e30), and right-hand sides "
     "scaled by 2^-700 to 2^600. Distinct: problem and factor differ.",
     "Metamorphic; tolerances by the accuracy of the eigensolver.",
     "metamorphic runtime oracle (scaling)")


def everywhere(variant, counts, k):
    """All the workloads in another build."""
    out = []
    for harness, n, pids in counts:
        for pid in pids:
            multi = harness != "h_common"
            one = max(2, n)
            if pid == "C16":
                out.append(wl(harness, 1, one, one * k, variant=variant,
                              workload=pid, threads=8))
                continue
            out.append(wl(harness, 1, one, one * k, variant=variant,
                          workload=pid))
            if multi:
                out.append(wl(harness, 2, one // 2, one // 2 * k,
                              variant=variant, workload=pid))
                out.append(wl(harness, 3, one // 3, one // 3 * k,
                              variant=variant, workload=pid))
    return out


HIER = ["C04", "C05", "C06", "C07", "C12", "C13", "C14", "C15", "C16", "C17",
        "C23", "C28"]
prop("C25", everywhere("asan", [
    ("h_agg", 30, ["C01", "C02", "C03", "C24"]),
    ("h_common", 60, ["C18", "C19", "C20", "C21", "C22"]),
    ("h_op", 40, ["C08", "C09", "C10", "C11", "C26"]),
    ("h_hier", 24, HIER)], 30),
     "A case is a case of the workload of another property, run in a build "
     "with AddressSanitizer, UndefinedBehaviorSanitizer and checked standard "
     "containers. Distinct: the cases of the workloads differ.",
     "Only what the sanitizers and the checked containers report counts, "
     "crashes, and C++ memory in use which grows when one case runs again and "
     "again (ML left out: it keeps some). deal.II and Trilinos are not instrumented (their heap blocks "
     "are).", "AddressSanitizer and UBSan over all generated workloads",
     crash_only=True,
     assumptions=["memory inside of uninstrumented libraries is only seen "
                  "through the allocator"])
prop("C29", everywhere("debug", [
    ("h_agg", 45, ["C01", "C02", "C03", "C24"]),
    ("h_common", 100, ["C18", "C19", "C20", "C21", "C22"]),
    ("h_op", 60, ["C08", "C09", "C10", "C11", "C26"]),
    ("h_hier", 45, [x for x in HIER if x != "C23"])], 30),
     "A case is a case of the workload of another property, run with the "
     "debug library of deal.II and the assertions of mfmg. Distinct: the "
     "cases of the workloads differ.",
     "Only violated assertions and crashes count.",
     "run-time contracts (deal.II debug library) over all generated workloads",
     crash_only=True)
