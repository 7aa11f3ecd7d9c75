"""Writes /verif/properties.jsonl (kept as a script so the long strings stay readable)."""
import json, pathlib
P = []
ST, GM, PT, ME = "src/dxss/space_time.py", "src/dxss/gmres.py", "src/dxss/precomp_time_int.py", "src/dxss/meshes.py"
DR = ["src/dxss/solve_1d.py", "src/dxss/solve_2d.py", "src/dxss/solve_3d.py"]


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})


NODOLFIN = ("No passing test imports this module (dolfinx is not installable in CI without conda; the upstream tests fix "
            "one order, one mesh and one slab count), so the quantifier is not even sampled here. ")

prop("C01", "Time-integration matrices are the exact integrals for every order pair",
     "For every supported pair of primal and dual time orders (each 0 to 3) the six tabulated reference-interval matrices "
     "(mixed mass, primal mass, dual mass, mixed derivative, primal derivative, derivative-derivative) equal the exact "
     "integrals over [0,1] of products of the equispaced nodal Lagrange bases and their first derivatives, with the row index "
     "always the test (dual or left) function and the column index the trial function. The result is a fresh set of tables "
     "for each call: it does not depend on earlier calls, and altering one result never changes a later one.",
     ["configurations", "histories"], "all 16 order pairs, every matrix entry, every ordered history of calls up to a depth",
     "No test exercises this module at all; entries feed every term of the space-time form so one wrong entry of one order pair is invisible to a single-order solve.",
     [PT], [("get_elmat_time", PT)], ["returned dictionary of matrices"])
prop("C02", "Nodal time basis and its tabulated derivatives agree for every order",
     "For every supported time order 0 to 3 the basis functions are nodal at the equispaced points of [0,1] including both ends "
     "(order 0 is the constant one), sum to one, reproduce all polynomials up to their order, and their tabulated derivatives "
     "are their exact derivatives at every time, inside and outside the unit interval. They are the same functions that the "
     "precomputed time-integration matrices integrate.",
     ["configurations", "inputs"], "all orders, all basis functions, all times (polynomial identity plus a grid of times)",
     "No test evaluates the basis; a wrong coefficient in one cubic derivative only shifts error norms.",
     [PT], [("basis_in_time", PT), ("get_elmat_time", PT)], ["values of the basis callables"])
prop("C03", "Every time quadrature rule is exact to its order on every interval",
     "Every available quadrature rule (Gauss-Radau with 3, 4 or 5 points, Gauss with 1 to 3, Newton-Cotes with 2 or 3, and the "
     "midpoint rule) applied to any time interval uses points inside that interval (Radau including the left end, Newton-Cotes "
     "both ends), as many weights as points, weights that are positive and sum to the interval length, and integrates every "
     "polynomial up to the rule's theoretical degree of exactness to the accuracy of its tabulated digits. Querying a rule never "
     "changes it or any other rule.",
     ["configurations", "inputs", "histories"], "every rule and point count, a grid of intervals, all monomials up to the degree of exactness, repeated queries in any order",
     "No test instantiates a rule; right-hand sides and error norms silently lose accuracy when a point/weight pairing breaks.",
     [PT], [("QuadRule.current_pts", PT), ("QuadRule.t_weights", PT)], ["points and weights returned"])
prop("C04", "Jump-lifting function vanishes where it must and has the right derivative",
     "The reference lifting function used to make the slabwise solution continuous is the quadratic that equals one at the left end -1 of the reference "
     "interval [-1,1] and zero at its interior and right node (0 and 1), and its tabulated derivative is its exact derivative everywhere.",
     ["inputs"], "all reference times (polynomial identity plus a grid)",
     "No test evaluates it; it only enters the error post-processing.",
     [PT], [("theta_ref", PT), ("d_theta_ref", PT)], ["values of both functions"])
prop("C05", "An iterative solve returns only converged solutions",
     "For every linear operator, preconditioner, right-hand side and setting, the iterative solve either returns a solution whose "
     "preconditioned residual norm is within the larger of the absolute tolerance and the relative tolerance times the preconditioned "
     "right-hand side norm, or raises a solver error; it never returns an unconverged vector. Nonsingular systems given enough "
     "iterations are solved, and systems that cannot be solved (too few iterations, non-finite data, singular without a solution) raise.",
     ["inputs", "configurations"], "all small integer matrices and right-hand sides up to a size, preconditioner family, tolerance/step-limit/restart menu",
     "The tests run two benign operators with the identity preconditioner and default settings; they never reach the failing side.",
     [GM], [("get_gmres_solution", GM), ("converged-reason test", GM)], ["returned vector or exception"])
prop("C06", "Iteration limit, tolerances, restart and reporting arguments are honoured",
     "The solve starts from a zero guess and performs restarted GMRES with the requested restart length, stops at the first iterate whose "
     "preconditioned residual norm meets the absolute (default 1e-12) or relative (default 1e-7) criterion, explicit zero tolerances "
     "included, and never exceeds the step limit (default 100). With reporting on it prints one progress line per iterate carrying the "
     "iteration number and residual norm; with reporting off it prints none.",
     ["inputs", "configurations"], "operators x preconditioners x (step limit, absolute tol, relative tol, restart, reporting) menu, compared step by step with a reference GMRES",
     "The tests use only the defaults, on systems that converge in at most n steps, and check nothing but the final solution.",
     [GM], [("setTolerances/setGMRESRestart/setMonitor", GM)], ["number of operator applications", "printed progress lines", "returned vector"])
prop("C07", "The solve returns the true residual and leaves its inputs untouched",
     "The second returned vector is the true residual right-hand side minus operator times solution, of the original unpreconditioned "
     "system. The right-hand side keeps its values, and the returned vectors are fresh: they alias neither the right-hand side nor the "
     "results of any other solve.",
     ["inputs", "histories"], "operators x preconditioners x right-hand sides, and pairs of solves sharing operator and right-hand side objects",
     "The tests discard the second result and never look at the right-hand side again.",
     [GM], [("buildResidual", GM), ("createVecRight", GM)], ["returned vectors", "right-hand side after the call"])
prop("C08", "A failing operator or preconditioner never yields a silent answer",
     "If the user's operator or preconditioner raises, or produces a non-finite value, at any application during an iterative solve, the solve "
     "raises an error instead of returning a solution (a non-finite value that appears only while the final residual is evaluated may instead show in the returned residual). When the solve is distributed over several processes, every process is told. A later solve with healthy callbacks in the same process succeeds unaffected.",
     ["fault_sequences"], "every application index of operator and preconditioner, each fault kind, single and double faults, followed by a clean solve",
     "No test injects any fault.",
     [GM], [("shell matrix/preconditioner", GM), ("converged-reason test", GM)], ["exception or returned vector", "following solve"])
prop("C09", "An iterative solve does not depend on earlier solves",
     "The outcome of an iterative solve (solution, iteration count, progress output, or error) depends only on its own arguments: any sequence of earlier solves in the "
     "same process, with other sizes, tolerances, step limits, restart lengths or reporting choices, successful or failed, leaves it unchanged.",
     ["histories"], "all sequences of solves up to a depth over an alphabet of differing calls",
     "The tests run each case once in fixed order with identical settings.",
     [GM], [("process-wide PETSc options", GM), ("default arguments", GM)], ["results of the last solve of each sequence"])
prop("C10", "Iterative solve is independent of how the right-hand side is distributed",
     "When the right-hand side is distributed over several processes, the iterative solve gives the same solution and residual, laid out like the "
     "right-hand side, for every admissible distribution of its rows (uneven and empty local parts included) and for vectors living on a sub-communicator.",
     ["configurations"], "all row distributions of small systems over 1 to 3 processes",
     "The tests only create sequential vectors in one process.",
     [GM], [("shell matrix creation", GM)], ["returned vectors on every process"])
prop("C11", "Full space-time matrix is the stabilised primal-dual system for every order",
     "For every choice of time orders, space orders (dual at most one above primal), number of slabs, end time, nonnegative stabilisation weights and initial-data / forward-jump flags, the assembled "
     "space-time matrix is that of the stabilised method: first-order wave operator tested with the dual variables with Nitsche boundary term, its adjoint, data term on the "
     "data domain, negative dual stabilisation, primal Galerkin-least-squares, boundary and gradient-jump stabilisation, and penalised jumps between consecutive slabs "
     "(and, when flagged, initial-data and forward-jump terms), time integrals taken over each physical slab. It is symmetric; the block lower-triangular variant differs only "
     "in keeping the jump terms tested on the later slab.",
     ["configurations"], "orders q,q* in 0..3, k in 1..3, k* in 1..2, N in 1..3, both flags, interval/triangle/box meshes, full and block-triangular variants, all matrix entries",
     NODOLFIN + "A wrong index shift only shows for N>=2 or for q != q*.",
     [ST], [("setup_spacetime_matrix", ST)], ["all entries of the assembled matrix"])
prop("C12", "Slab matrices are the diagonal blocks of the full space-time system",
     "For every configuration without forward jumps the single-slab matrix with jumps equals the diagonal block of any later slab in the block lower-triangular "
     "space-time matrix, and the first-slab matrix equals its first diagonal block (including initial data terms exactly when the problem is flagged well-posed). With forward jumps the slab matrix additionally holds the jump terms tested with the dual variables and their dual stabilisation. "
     "The inter-slab coupling and scaled mass matrices equal the corresponding jump terms of the full system.",
     ["configurations"], "orders, slab counts, flags, meshes; all matrix entries",
     NODOLFIN + "The two code paths duplicate some 20 terms by hand; drift between them changes the preconditioner only.",
     [ST], [("setup_slab_matrix", ST), ("setup_coupling_matrix_between_slices", ST), ("setup_scaled_mass_matrix_between_slices", ST)], ["matrix entries"])
prop("C13", "Matrix-free space-time product equals the assembled matrix",
     "For every configuration and every input vector, the slab-by-slab matrix-free application of the space-time operator (directly or through the "
     "PETSc matrix adapter) yields the same result as multiplying by the assembled full space-time matrix, overwrites whatever the output vector held before, and leaves the input unchanged.",
     ["inputs", "configurations", "histories"], "all unit vectors (linearity) plus combination vectors, orders, slab counts, flags, meshes, dirty output/scratch states",
     NODOLFIN, [ST], [("apply_spacetime_matrix", ST), ("SpaceTimePETScMatrixWrapper", ST)], ["output vector"],
     [("vec_slab1/2, vec_coupling1/2", "scratch reused across calls", ST)])
prop("C14", "Time-marching preconditioners invert the block lower-triangular matrix",
     "For every configuration without forward jumps and every right-hand side, both time-marching preconditioners (and the PETSc preconditioner adapter) "
     "return the solution of the block lower-triangular space-time matrix, hence agree with each other, whatever was computed before, leaving the right-hand side unchanged. With forward jumps the plain one solves the recursion of its slab and coupling matrices. "
     "The improved variant refuses forward-jump problems with an error.",
     ["inputs", "configurations", "histories"], "all unit right-hand sides plus combinations, orders, slab counts, flags, meshes, dirty scratch states",
     NODOLFIN, [ST], [("pre_time_marching", ST), ("pre_time_marching_improved", ST), ("SpaceTimePETScPreconditionerWrapper", ST)], ["solution vector"],
     [("u1_0_pre/u2_0_pre, b_rhs_pre, uh_pre", "state carried from slab to slab", ST)])
prop("C15", "Set-up and query order never changes what the space-time object delivers",
     "Once the finite elements are set up, matrices, right-hand side, preconditioner preparation and the operations built on them may be requested in any order and "
     "any number of times: each request succeeds and delivers the same result as on a fresh object. In particular the full and the block lower-triangular "
     "space-time matrices are never confused, whichever was requested first.",
     ["histories"], "breadth-first search over all reachable set-up states by all orders of the public requests, for every flag combination",
     NODOLFIN + "Upstream tests use one fixed order of calls.",
     [ST], [("lazy getters", ST), ("prepare_precondition_gmres", ST)], ["result of every request in every reachable state"],
     [("lazily built matrices, forms, vectors", "which of them exist so far", ST)])
prop("C16", "Applying, preconditioning and post-processing leave no trace on later results",
     "Operator applications, preconditioner applications, error measurement and output of a solution may be interleaved arbitrarily, also when a slab solver fails in the middle of one "
     "of them: every later operation gives the same result as on a fresh object, vectors passed in are not modified, and initial data set on the problem persists.",
     ["histories", "fault_sequences"], "all operation sequences up to a depth over the operations, failure of the slab solver at every slab index included",
     NODOLFIN, [ST], [("shared auxiliary vectors and functions", ST)], ["results after every history"])
prop("C17", "Data enter exactly on the data domain, and domains can be shared",
     "The data term of the system and of the right-hand side is weighted by the user's data-domain indicator: for a fitted domain by the indicator function "
     "sampled once per cell, for an unfitted one by the given expression itself. Building a problem never alters the caller's data-domain description, so "
     "the same description can be reused for several problems and meshes in any order.",
     ["configurations", "inputs", "histories"], "every subset of cells as data domain on small meshes, fitted and unfitted, shared between problems in every order",
     NODOLFIN, [ST], [("SpaceTime.__init__ indicator set-up", ST), ("data term", ST)], ["data part of matrix and right-hand side"])
prop("C18", "Right-hand side samples the exact solution at the right times in every slab",
     "For every configuration the assembled right-hand side is the data term of the given solution integrated over each slab with the slab's own physical times, "
     "plus, exactly when the problem is flagged well-posed, the initial-data terms with the initial values set on the problem; the entries for the dual variables vanish.",
     ["configurations", "inputs"], "orders, slab counts, end times, flags, meshes, solutions polynomial in time and space up to a degree, initial data",
     NODOLFIN, [ST], [("setup_rhs", ST)], ["right-hand side vector"])
prop("C19", "Reported errors are the true errors of the given discrete solution",
     "For every configuration and discrete solution the reported errors are the final-time L2 error, the maximum over the fixed sample times (all of the time interval, both ends "
     "included) of the L2 errors of value and time derivative, and the space-time L2 error of the time derivative, all of the slabwise solution made continuous by lifting its slab jumps. "
     "They vanish for an exactly represented solution and are never negative or altered by what was measured before.",
     ["inputs", "configurations"], "orders, slab counts, meshes, discrete solutions from all unit vectors plus jumps, polynomial exact solutions",
     NODOLFIN + "The one upstream smoke test only checks that the measurement does not crash.",
     [ST], [("measured_errors", ST)], ["returned dictionary"])
prop("C20", "Plots and exported fields show the given discrete solution",
     "For every one-dimensional solution vector, the plotted field and error arrays hold the value, time derivative or absolute error of that discrete solution at "
     "the stated sample times and points, slab by slab in time order, and the exported final-time error fields hold the nodal absolute errors of value and velocity under the requested names.",
     ["inputs", "configurations"], "orders, slab counts, sampling resolutions, all unit vectors",
     NODOLFIN, [ST], [("plot", ST), ("plot_error", ST), ("plot_para_view", ST)], ["drawn arrays", "written files"])
prop("C21", "Transfer between meshes preserves coarse functions in every component",
     "For nested meshes, prolongating a coarse space-time vector gives the fine representation of the same discrete function in every field and time component, "
     "restricting it again returns the original vector, and every slab, time component and field is transferred to the matching one only.",
     ["inputs", "configurations"], "all coarse unit vectors, orders, slab counts, nested mesh pairs",
     NODOLFIN, [ST], [("prolongation", ST), ("restriction", ST)], ["output vectors"])
prop("C22", "Two-level preconditioner is the coarse correction plus time marching",
     "With a coarse mesh (resolving a fitted data domain) prepared, the coarse matrix is the full space-time matrix on the coarse mesh, and for every right-hand side the two-level preconditioner returns the coarse-grid correction "
     "plus the time-marching solve of the remaining residual, leaving the right-hand side unchanged and independent of earlier applications.",
     ["inputs", "configurations", "histories"], "all unit right-hand sides, orders, slab counts, nested mesh pairs, repeated application",
     NODOLFIN + "Nothing upstream calls it.",
     [ST], [("prepare_coarse_grid_correction", ST), ("pre_twolvl", ST), ("q_op", ST)], ["output vector"])
prop("C23", "Preconditioned iterative solve equals direct solve of the assembled system",
     "For every configuration without forward jumps, solving the space-time problem by preconditioned iteration through the PETSc adapters yields the solution of the assembled space-time system with the assembled right-hand side up to the requested tolerance.",
     ["configurations"], "orders, slab counts, flags, meshes, data domains",
     NODOLFIN, [ST, GM], [("adapters", ST), ("get_gmres_solution", GM)], ["solution vector"])
prop("C24", "Reconstruction error decreases under refinement for every order",
     "For smooth exact data on a data domain satisfying the geometric control condition, the reconstructed solution approximates the exact one, and simultaneous refinement of mesh and slabs reduces the reported errors at about the rate of the polynomial order.",
     ["configurations"], "orders 1 to 3, a bounded sequence of refinements",
     NODOLFIN, [ST, GM], [("whole pipeline", ST)], ["reported errors"])
prop("C25", "Every generated mesh is a valid conforming triangulation of its domain",
     "Every two-dimensional mesh generator, for every mesh-size factor, returns a conforming triangulation without inverted or degenerate cells that covers exactly its documented domain and resolves "
     "its interior interfaces (no cell crosses a subdomain boundary); the three-dimensional one does the same with tetrahedra of the unit cube. Smaller size factors give finer meshes.",
     ["configurations"], "all generators, a menu of size factors and geometry parameters, all cells and facets",
     "No passing test imports the mesh module; the upstream tests use a single generator and a single size.",
     [ME], [("generators", ME)], ["returned mesh"])
prop("C26", "Mesh hierarchies are nested uniform refinements with one level per request",
     "Asking for n refinements returns n+1 levels (or n separately generated meshes for the regenerating variant), where each level uniformly refines the previous one: every cell is subdivided inside its "
     "parent, and covered area is preserved. The supported version of the finite element library is driven with its own call convention (the all-around generator supports the newer one as well).",
     ["configurations"], "generators x refinement counts x library versions",
     "No passing test imports the mesh module.", [ME], [("refinement loops", ME)], ["returned list of meshes"])
prop("C27", "Mesh generators can be called in any sequence",
     "Any sequence of mesh generator calls in one process, over generators and their parameters, gives each time the same mesh as the first call in a fresh process, and leaves no CAD session open, files of other generators in the working directory notwithstanding.",
     ["histories"], "all sequences of generator calls up to a depth",
     "No passing test imports the mesh module.", [ME], [("gmsh session handling", ME), ("exchange files", ME)], ["meshes of the sequence", "CAD session state"])
prop("C28", "Parallel mesh generation is race-free on every process schedule",
     "With several processes, for every generator that exchanges the mesh through files and every interleaving, only the first process drives the CAD kernel and writes the exchange files, no process reads a file before it is completely written or "
     "while it is being overwritten, all processes close their CAD session and obtain the same mesh, and none deadlocks, also over consecutive generator calls.",
     ["schedules"], "all interleavings of 2 and 3 processes at file, CAD and collective operations",
     "Tests run one process.", [ME], [("rank-0 guards", ME)], ["event trace of every process"])
prop("C29", "Each driver solves its assembled system with every solver backend",
     "solve_problem of the one-, two- and three-dimensional drivers computes the solution of the assembled space-time system whichever backend is selected (Pardiso, PETSc LU, or direct full solve) "
     "and whatever was called before, and measures the errors of that solution if and only if asked to; the drivers do not need the optional Pardiso package, select it when present, and warn when a Pardiso solver is created without it.",
     ["configurations"], "drivers x backends x error-measurement flag x package availability",
     "The driver tests cannot be imported without dolfinx and cover one backend.", DR + [ST], [("solve_problem", DR[0]), ("PySolver", DR[0])], ["solution used for errors", "warnings"])
prop("C30", "Driver problem data are consistent at every point",
     "The manufactured solution of every driver solves the wave equation with zero boundary values and its stated time derivative is its exact time derivative; every data-domain indicator is one "
     "exactly on its closed region and zero elsewhere, for every array of points.",
     ["inputs"], "grids of points including all region boundaries and their floating-point neighbours, all array lengths up to a bound",
     "No passing test imports the drivers.", DR, [("sample_sol/dt_sample_sol/omega_ind_*", DR[0])], ["function values"])
prop("C31", "Exporting a PETSc matrix to SciPy keeps its shape and every entry",
     "Converting any PETSc matrix to a SciPy sparse matrix (as done before handing it to Pardiso) gives a matrix of the same shape with exactly the same entries, "
     "also when rows or columns, the last ones included, store no entry or only zeros. The export is a snapshot: later changes of the matrix do not reach it and changing it does not reach the matrix.",
     ["inputs", "histories"], "all sparsity patterns of small square and rectangular matrices, storage orders, export/change histories",
     "No stable test converts a matrix; assembled slab matrices always store the last column, so the failing side is never sampled.", [ST], [("get_sparse_matrix", ST)], ["returned matrix"])
prop("C32", "Slab solvers of the drivers solve with their own matrix in any interleaving",
     "The slab solvers that the one-, two- and three-dimensional drivers build (PETSc LU, and the adapter around Pardiso) solve with exactly the matrix they were created for: every solve overwrites "
     "the whole output with the solution of that system, independent of its previous content, of which right-hand sides were solved before and of solves done by other slab solvers in between; right-hand side and matrix are left as they were.",
     ["inputs", "histories"], "symmetric quasi-definite matrices like the slab matrices, pairs of solvers, all interleaved sequences of solves up to a depth",
     "The drivers cannot be imported without dolfinx; their tests use one solver on one matrix.", DR, [("get_lu_solver", DR[0]), ("PySolver", DR[0])], ["output vector"])
prop("C33", "Run-time options tune the iterative solve, and only while they are set",
     "PETSc options given at run time for the step limit, the relative and absolute tolerance and the restart length of the solver take precedence over the arguments of the call and over its defaults: "
     "the solve then is exactly the solve with those values as arguments. Options that were withdrawn have no effect on later solves, and a solve leaves the user's options as they were.",
     ["configurations", "histories"], "all combinations of option values, arguments and systems, set/solve/withdraw/solve histories",
     "The tests never set an option.", [GM], [("setFromOptions", GM)], ["solution, residual, iterations, exception"])
prop("C34", "Reported errors do not depend on how the mesh is distributed over processes",
     "Measuring the errors of a discrete solution on a mesh distributed over any number of processes, in any way, reports the same four numbers on every process, equal to the errors on the undistributed mesh; "
     "all processes (those without cells included) take part in the same collective operations of the mesh's communicator.",
     ["configurations"], "all assignments of the cells of small meshes to up to three processes, orders, slab counts, discrete solutions",
     "The repository has no parallel tests; with one process a missing or misplaced reduction changes nothing.", [ST], [("SpaceTime.measured_errors", ST)], ["returned dictionary on every process"])
prop("C35", "Mesh generators give the sequential mesh on any number of processes",
     "Every mesh generator called on any number of processes, alone or after another generator, finishes on all of them, gives each of them the mesh (with tags and curved nodes) that a single process gets, "
     "and leaves no CAD session open; for the generators that hand the mesh over in memory this holds on every schedule and only the first process drives the CAD kernel.",
     ["schedules", "configurations"], "all generators and ordered pairs, 1 to 4 processes; all schedules of simulated processes",
     "Tests run one process.", [ME], [("rank-0 guards, create_mesh calls", ME)], ["meshes on every process"])

prop("C36", "Space-time objects in one process do not influence each other",
     "Any number of space-time objects may live in one process and be built, assembled, prepared, applied, iterated with, reported and plotted in any alternation, whether equal, different in "
     "problem data, discretisation or mesh, or sharing mesh, data domain, weights, solution and parameter objects; every result equals the one the object delivers when used alone, and matrices delivered earlier keep their content.",
     ["histories", "configurations"], "pairs of problems differing in one respect x all interleavings of their life cycles up to a number of switches",
     "Tests use one object.", [ST], [("SpaceTime", ST), ("PETSc wrappers", ST)], ["matrices, vectors, errors, files, drawings of each object"])

prop("C37", "Assembled systems are symmetric, definite by variable, and uniquely solvable",
     "For positive stabilisation weights and a dual space at most one order above the primal one the full system matrix (also with forward jumps) and the coarse matrix are symmetric, positive definite on the primal and negative definite on the "
     "dual variables, as are, without forward jumps, the slab and first-slab matrices; hence each is uniquely solvable, whatever the data domain (even empty), orders, mesh, slabs and weights; the block lower-triangular matrix is nonsingular.",
     ["inputs", "configurations"], "orders x flags x slabs x meshes x data domains x weights over several magnitudes; all eigenvalues",
     "Tests do not assemble systems.", [ST], [("setup_spacetime_matrix, setup_slab_matrix, setup_coarse matrices", ST)], ["assembled matrices"])

prop("C38", "Subdomain and boundary markers in the mesh files",
     "The files a two-dimensional mesh generator writes describe the mesh it returns (its coarsest level, or the last one if it generates each): they hold its cells; every cell carries one marker, and markers tell the documented "
     "subdomains apart (for the convex and nonconvex data geometries 1 is the data domain, 2 the rest of the target, 3 the remainder); the facets with boundary marker 1 are exactly the domain's boundary; whatever size factor, parameters and earlier files.",
     ["inputs", "configurations"], "all generators x parameters x size factors x earlier calls", "Tests do not read the files.", [ME],
     [("physical groups, meshio export", ME)], ["mesh.msh, mesh.xdmf, mt.xdmf, mesh tags"])

prop("C39", "Incomplete set-up is refused or harmless, and can be completed",
     "Whichever of the set-up steps (finite elements, preconditioner preparation, slab solvers, coarse grid, coarse solver) were taken, in whatever order and refused or not, every operation on a space-time object either raises "
     "or delivers the result of a completely set-up object, never silently another one; and completing the set-up afterwards always succeeds, after which every operation delivers the right result.",
     ["histories"], "all sequences and subsets of set-up steps x all operations", "Tests set objects up completely.", [ST],
     [("set-up methods and solvers", ST)], ["results or exceptions of every operation"])

prop("C40", "Unsupported or incomplete input is refused, never filled in",
     "A time order, quadrature rule or number of quadrature points the package has no tables for is refused (by an exception, or for a rule by returning nothing), never answered with the tables of another one; "
     "and an operation on a problem whose stabilisation weights or data domain are incomplete either raises or delivers a result that does not depend on what is missing: no value is silently assumed. "
     "Entries the package does not know change nothing.",
     ["inputs"], "all time orders, rules and numbers of points x all subsets of the stabilisation weights and of the data domain x problem flags x operations",
     "Tests pass complete, supported input only.", ["src/dxss/precomp_time_int.py", ST],
     [("get_elmat_time, basis_in_time, QuadRule", "src/dxss/precomp_time_int.py"), ("stabilisation terms and data domain", ST)], ["results or exceptions of requests"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
