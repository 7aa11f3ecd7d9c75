"""C32: the slab solvers of the drivers solve with their own matrix, whatever was solved before."""
import itertools
import os
import shutil
import tempfile
import warnings

import drivers as D
import forktree
import numpy as np
import scipy.sparse as sp

LEVEL = "model_checking"
RULE = ("every driver x {PETSc LU, Pardiso adapter} x pairs of small symmetric quasi-definite matrices (the class of the slab matrices) x every sequence of solves (which of the two "
        "solvers, which right-hand side, into which vector) up to a depth; a state is (driver, kind, matrices, history), a transition one solve "
        "compared with the exact solution; and the slab solvers that solve_problem itself installs, over all sequences of backends, on every unit vector")
ASSUMPTIONS = ["PyPardiso is replaced by a stand-in with the same interface (lib/fakepardiso)", "matrices up to 3 x 3, symmetric quasi-definite (PETSc LU does not pivot)"]
TIMEOUT = 300
KINDS = ("LU", "pardiso")


def cases(tier, seed):
    out = [{"dim": d, "kind": k, "tier": tier} for d in (1, 2, 3) for k in KINDS]
    return out + [{"dim": d, "kind": "driver", "order": o, "tier": tier} for d in (1, 2, 3) for o in ((1, 2) if d == 1 or tier != "quick" else (1,))]


def menu(tier):
    """Symmetric quasi-definite matrices (positive primal part, negative dual part, any coupling), as the slab matrices are,
    in every order of the unknowns."""
    diag = (1.0, 1e-3) if tier == "quick" else (1.0, 1e-3, 1e4)
    off = (-1.0, 0.0, 3.0)
    out = []
    for a, c, b in itertools.product(diag, diag, off):
        for s, t in ((1, -1), (-1, 1)):
            out.append(np.array([[s * a, b], [b, t * c]]))
    out.append(np.array([[2.0, 1.0], [1.0, 2.0]]))
    for signs in itertools.product((1, -1), repeat=3):
        B = np.diag([2.0 * s for s in signs])
        for i, j in itertools.combinations(range(3), 2):
            B[i, j] = B[j, i] = 1.0 + j if signs[i] != signs[j] else 0.5
        out.append(B)
    return out


def similar(n):
    """Right-hand sides that agree in norm, sum, largest entry or to nine digits."""
    v = np.arange(1.0, n + 1)
    return [v, v[::-1].copy(), -v, np.roll(v, 1), v + 1e-9 * np.eye(n)[0], v * (1 + 1e-9), np.eye(n)[0], np.eye(n)[1], -np.eye(n)[0], 1e-9 * v, np.zeros(n)]


def petsc(A):
    from petsc4py import PETSc
    n = len(A)
    M = PETSc.Mat().createAIJ([n, n], nnz=n, comm=PETSc.COMM_SELF)
    for i, j in itertools.product(range(n), repeat=2):
        if A[i, j] or i == j:  # as in the assembled matrices the diagonal is always stored
            M.setValue(i, j, A[i, j])
    M.assemble()
    return M


def solver(m, kind, A):
    from petsc4py import PETSc  # noqa: F401
    M = petsc(A)
    if kind == "LU":
        return m.get_lu_solver(m.ST.msh, M), M
    S = m.get_sparse_matrix(M)
    p = m.pypardiso.PyPardisoSolver()
    p.factorize(S)
    return m.PySolver(S, p), M


def explore(case):
    from petsc4py import PETSc
    k = {1: {"max_interval": 3}, 2: {"patch": "coarse"}, 3: {"max_box": 2}}[case["dim"]]
    ov = {1: {"N": 1}, 2: {"REF_LVL": 0, "ORDER": 1}, 3: {"REF_LVL": 0}}[case["dim"]]
    with warnings.catch_warnings(record=True):
        m, _ = D.load(case["dim"], ov, pardiso="present", **k)
    mats = menu(case["tier"])
    depth = 3 if case["tier"] == "quick" else 4
    fails, states, steps = [], 0, 0
    rhs = {n: [np.zeros(n), np.eye(n)[0], np.arange(1.0, n + 1), -3.0 * np.eye(n)[-1]] for n in (2, 3)}

    def vec(a):
        v = PETSc.Vec().createSeq(len(a), comm=PETSc.COMM_SELF)
        v.array[:] = a
        return v
    stride = 7 if case["tier"] == "quick" else 3
    pairs = [(i, (i * 5 + stride * d) % len(mats)) for i in range(len(mats)) for d in range(1 if case["tier"] == "quick" else 4)]
    for a, b in pairs:
        two = [mats[a], mats[b]]
        sv = [solver(m, case["kind"], A) for A in two]
        x = {n: vec(np.full(n, np.nan)) for n in (2, 3)}      # reused output vectors
        letters = [(s, r) for s in (0, 1) for r in (1, 2)] + [(0, 0), (1, 3)]
        for hist in itertools.product(letters, repeat=depth):
            states += 1
            for pos, (s, r) in enumerate(hist):
                A = two[s]
                n = len(A)
                bv = vec(rhs[n][r])
                who = f"solve_{case['dim']}d {case['kind']} matrices {[t.tolist() for t in two]} solves (solver, right-hand side) {hist[:pos + 1]}"
                sv[s][0].solve(bv, x[n])
                steps += 1
                want = np.linalg.solve(A, rhs[n][r])
                got = np.array(x[n].array)
                if not np.allclose(got, want, rtol=1e-9, atol=1e-9 * np.abs(want).max()):
                    fails.append(("solution", f"{who}: {got.tolist()} instead of {want.tolist()}"))
                if not np.array_equal(bv.array, rhs[n][r]):
                    fails.append(("rhs", f"{who}: right-hand side altered to {bv.array.tolist()}"))
                if fails:
                    return fails, states, steps
                bv.destroy()
        # ordered pairs of right-hand sides that share norm, sum, rounded entries or the vector object
        n = len(two[0])
        shared = vec(np.zeros(n))
        for (i, r1), (j, r2) in itertools.permutations(enumerate(similar(n)), 2):
            for same in (False, True):
                states += 1
                for r in (r1, r2):
                    bv = shared if same else vec(r)
                    bv.array[:] = r
                    sv[0][0].solve(bv, x[n])
                    steps += 1
                    got, want = np.array(x[n].array), np.linalg.solve(two[0], r)
                    if not np.allclose(got, want, rtol=1e-10, atol=1e-10 * np.abs(want).max()):
                        fails.append(("solution", f"solve_{case['dim']}d {case['kind']} matrix {two[0].tolist()}, right-hand sides {r1.tolist()} and {r2.tolist()} "
                                      f"{'in one vector' if same else ''}: {got.tolist()} instead of {want.tolist()}"))
                        return fails, states, steps
        for A, (_, M) in zip(two, sv):
            dense = np.array([[M.getValue(i, j) for j in range(len(A))] for i in range(len(A))])
            if not np.array_equal(dense, A):
                fails.append(("matrix", f"solve_{case['dim']}d {case['kind']}: the matrix {A.tolist()} became {dense.tolist()}"))
                return fails, states, steps
    return fails, states, steps


def installed(case):
    """The slab solvers that solve_problem itself installs, over every sequence of backends."""
    import dxss.space_time as dst
    from petsc4py import PETSc
    k = {1: {"max_interval": 4}, 2: {"patch": "coarse"}, 3: {"max_box": 2}}[case["dim"]]
    ov = {1: {"N": 3}, 2: {"REF_LVL": 0}, 3: {"REF_LVL": 1}}[case["dim"]]
    given = {"general": [], "first": []}
    slab, first = dst.SpaceTime.set_solver_slab, dst.SpaceTime.set_solver_first_slab

    def set_slab(st, s):
        given["general"].append(s)
        return slab(st, s)

    def set_first(st, s):
        given["first"].append(s)
        return first(st, s)
    dst.SpaceTime.set_solver_slab, dst.SpaceTime.set_solver_first_slab = set_slab, set_first
    dst.SpaceTime.plot_error = dst.SpaceTime.plot_para_view = lambda *a, **k: None
    with warnings.catch_warnings(record=True):
        m, _ = D.load(case["dim"], {**ov, "ORDER": case["order"]}, pardiso="present", **k)

    def dense(M):
        i, j, v = M.getValuesCSR()
        return sp.csr_matrix((v, j, i), shape=M.getSize()).toarray()
    A = {"general": dense(m.ST.get_slab_matrix()), "first": dense(m.ST.get_slab_matrix_first_slab())}
    fails, states, steps = [], 0, 0
    inv = {name: np.linalg.inv(a) for name, a in A.items()}
    for hist in [(a,) for a in ("pypardiso", "petsc-LU")] + list(itertools.product(("pypardiso", "petsc-LU"), repeat=2)):
        for lst in given.values():
            lst.clear()
        for b in hist:
            m.SOLVER_TYPE = b
            m.solve_problem()
        for i in range(len(A["general"]) + 1):
            for order in (("general", "first"), ("first", "general")):
                for name in order:
                    for number, s in enumerate(given[name]):
                        n = len(A[name])
                        rhs = np.cos(np.arange(n)) if i == n else np.eye(n)[i]
                        b, x = PETSc.Vec().createSeq(n, comm=PETSc.COMM_SELF), PETSc.Vec().createSeq(n, comm=PETSc.COMM_SELF)
                        b.array[:] = rhs
                        s.solve(b, x)
                        steps += 1
                        want = inv[name] @ rhs
                        if not np.abs(np.array(x.array) - want).max() <= 1e-6 * np.abs(want).max() or not np.array_equal(b.array, rhs):
                            fails.append(("installed", f"solve_{case['dim']}d order {case['order']}: after solve_problem with {hist} the {name} slab solver number {number} "
                                          f"does not solve with its matrix (right-hand side {i}, off by {np.abs(np.array(x.array) - want).max():.1e})"))
                            return fails, states, steps
                        b.destroy(), x.destroy()
            states += 1
    return fails, states, steps


def run_case(case, rec):
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif-slab-")
    os.chdir(d)
    try:
        fails, states, steps = forktree.branch(installed if case["kind"] == "driver" else explore, case)
    except forktree.Died as e:
        text = str(e)
        if "/src/dxss/" not in text or "Unsupported" in text:
            raise
        rec.fail("raises", f"solve_{case['dim']}d {case['kind']}: {text[-1200:]}")
        return
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    for key, msg in fails:
        rec.fail(f"{key}:{case['dim']}d:{case['kind']}", msg)
    for s in range(states):
        rec.state(case["dim"], case["kind"], s)
    rec.step(steps)
    rec.trace(steps)
    rec.sample({"driver": case["dim"], "kind": case["kind"], "histories": states})
