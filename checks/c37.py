"""C37: every system is symmetric, positive on the primal and negative on the dual variables, hence uniquely solvable."""
import itertools

import configs
import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration (time and space orders x flags x slabs x end times x meshes x data domains, the empty one included, x weights over several orders of "
        "magnitude) x every matrix (full, block lower triangular, slab, first slab, coarse) ; a state is a (configuration, matrix), a transition a definiteness "
        "test of its primal or dual part by all its eigenvalues after diagonal scaling")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "time steps above 0.01 (below, the least eigenvalues come close to rounding)"]
TIMEOUT = 300
WEIGHTS = [{"data": d, "dual": u, "primal": p, "primal-jump": j} for d, u, p, j in (
    (1e4, 1.0, 1e-3, 1.0), (1.0, 1e-4, 1.0, 1e3), (1e-3, 10.0, 1e2, 1e-2), (1e6, 1e-2, 1e-6, 1e-4), (1.0, 1.0, 1.0, 1.0),
    (1e4, 1e-8, 1e-3, 1.0), (1e-8, 1.0, 1.0, 1.0), (1e8, 1e8, 1.0, 1.0), (1.0, 1.0, 1e-7, 1.0), (1.0, 1.0, 1.0, 1e-8), (1.0, 1.0, 1e8, 10.0), (1e-8,) * 4)]


def cases(tier, seed):
    b = configs.Bag()
    # not the tiny time steps, for which the least eigenvalues come close to rounding
    b.out = [c for c in configs.operator_configs(tier) if c["T"] / c["N"] > 1e-2]
    b.seen = {repr(sorted(c.items(), key=str)) for c in b.out}
    for stab, (q, s), (f, w), om in itertools.product(WEIGHTS, ((0, 0), (1, 0), (1, 1), (2, 1), (3, 3)), configs.FLAGS, ("half", "none")):
        if tier == "quick" and (f and w or q + s > 3 and f):
            continue
        b.add(stab=stab, q=q, qs=s, fw=f, wp=w, N=3 if q < 3 else 2, mesh=["irregular", 2], omega=om, T=0.5)
    for m, w in itertools.product(configs.MESHES, (False, True)):
        for k, ks in ((1, 1), (1, 2), (2, 1), (2, 2)):
            if m[0] in ("tet", "hex") and k + ks > 2:
                continue
            b.add(mesh=m, k=k, ks=ks, q=1, qs=1, N=1, wp=w, omega="none")
    return configs.chunk(b.out, 6)


def least(a):
    """Smallest eigenvalue after diagonal scaling."""
    d = np.diag(a)
    if d.min() <= 0:
        return min(d.min(), 0.0)
    s = a / np.sqrt(np.outer(d, d))
    return np.linalg.eigvalsh(0.5 * (s + s.T)).min()


def check(rec, mat, dofs, who, what, symmetric=True):
    A = P.dense(mat)
    prim = np.concatenate([np.array(x) for j in (0, 1) for x in dofs[j]])
    dual = np.concatenate([np.array(x) for j in (2, 3) for x in dofs[j]])
    rec.state(who, what)
    rec.trace()
    if not rec.expect(sorted([*prim, *dual]) == list(range(len(A))), f"{what}:dofs", f"{what} matrix: the variables do not cover its {len(A)} rows; {who}"):
        return
    if not symmetric:
        rec.step()
        # block lower triangular: its slab blocks are tested as slab matrices
        s = np.abs(A).max(axis=1)
        rec.expect(s.min() > 0 and np.linalg.matrix_rank(A / s[:, None] / np.abs(A / s[:, None]).max(axis=0), tol=1e-13) == len(A), f"{what}:singular",
                   f"{what} matrix is singular; {who}")
        return
    asym = np.abs(A - A.T).max() / np.abs(A).max()
    rec.expect(asym < 1e-12, f"{what}:symmetric", f"{what} matrix is not symmetric ({asym:.1e}); {who}")
    for name, idx, sign in (("primal", prim, 1.0), ("dual", dual, -1.0)):
        rec.step()
        e = least(sign * A[np.ix_(idx, idx)])
        rec.expect(e > 1e-11, f"{what}:{name}", f"{what} matrix is not {'positive' if sign > 0 else 'negative'} definite on the {name} variables "
                   f"(least scaled eigenvalue {e:.1e}); {who}")


def run_case(case, rec):
    for c in case["cfgs"]:
        who = P.cfg_id(c) + (f"-{c['stab']}" if c["stab"] else "")
        msh = P.make_mesh(c["mesh"])
        omega = P.dst.DataDomain(indicator_function=lambda x: 0.0 * x[0]) if c["omega"] == "none" else P.omega_of(c, msh)
        simple = c["mesh"][0] in ("interval", "irregular", "square") and c["omega"] in ("half", "none")
        fine = P.refine_uniform(msh) if simple and c["mesh"][1] == 1 else msh
        ok, pr = guarded(rec, "build", P.Problem, c, msh=fine, omega=omega)
        if not ok:
            return
        st = pr.st
        todo = [("full", st.get_spacetime_matrix, st.dofmaps_full, True), ("block lower triangular", lambda: st.get_spacetime_matrix(precond=True), st.dofmaps_full, c["N"] == 1),
                ("slab", st.get_slab_matrix, st.dofmaps_pre, True), ("first slab", st.get_slab_matrix_first_slab, st.dofmaps_pre, True)]
        if c["fw"]:
            todo = todo[:1]      # slab-wise solves are not offered with forward jumps
        for what, get, dofs, sym in todo:
            ok, mat = guarded(rec, what, get)
            if not ok:
                return
            check(rec, mat, dofs, who, what, sym)
        if fine is not msh:
            ok, _ = guarded(rec, "coarse", st.prepare_coarse_grid_correction, msh)
            if ok:
                check(rec, st.get_spacetime_matrix_coarse(), st.dofmaps_full_coarse, who, "coarse")
    rec.sample({"configurations": len(case["cfgs"])})
