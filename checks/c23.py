"""C23: preconditioned iterative solve through the PETSc adapters equals the direct solve."""
import itertools

import configs
import numpy as np
import stprob as P
from runner import guarded

from dxss.gmres import get_gmres_solution

LEVEL = "model_checking"
RULE = ("every configuration within the bounds x every solver setting (relative tolerance, restart) for the assembled right-hand side "
        "and for every unit vector of the smaller systems; a state is (configuration, setting, right-hand side), a transition one "
        "iterative solve compared with the direct solution of the assembled system")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "slab solvers are exact dense LU factorisations",
               "accuracy is judged by the preconditioned residual recomputed with the reference matrices"]
SETTINGS = ({}, {"reltol": 1e-3, "printrates": False}, {"reltol": 1e-10, "tol": 1e-14, "printrates": False},
            {"reltol": 1e-8, "restart": 7, "maxsteps": 3000, "printrates": False})


def allow(c):
    return not c["fw"] and (c["mesh"] != ["interval", 1] or c["N"] == 36)


def cases(tier, seed):
    cfgs = configs.operator_configs(tier, allow)
    return configs.chunk(cfgs, 6 if tier == "quick" else 4)


def run_case(case, rec):
    for i, c in enumerate(case["cfgs"]):
        run_cfg(c, rec, i % 3 == 0)


def run_cfg(c, rec, units):
    pr = P.Problem(c)
    st = pr.st
    ok, _ = guarded(rec, "prepare:raises", pr.ready)
    if not ok:
        return
    p = P.perm_of(st.fes)
    n = len(p)
    ref = P.Ref(c, pr.msh)
    A, L = np.empty((n, n)), np.empty((n, n))
    A[np.ix_(p, p)], L[np.ix_(p, p)] = ref.full(), P.march_matrix(ref)
    if max(np.linalg.cond(A), np.linalg.cond(L)) > 1e11:
        rec.count("skipped_illconditioned")
        return
    Li = np.linalg.inv(L)
    PA = Li @ A
    sv = np.linalg.svd(PA, compute_uv=False)
    if sv[0] / sv[-1] > 1e7:
        rec.count("skipped_illconditioned")
        return
    matw, prew = P.dst.SpaceTimePETScMatrixWrapper(st), P.dst.SpaceTimePETScPreconditionerWrapper(st)
    b0 = np.array(st.get_spacetime_rhs().array)
    rhss = [("assembled", b0)]
    if units and n <= 40:
        rhss += [(k, v) for k, v in P.unit_probes(n) if k != "zero"]
    for name, b in rhss:
        direct = np.linalg.solve(A, b)
        for kw in (SETTINGS if name in ("assembled", "ramp") else SETTINGS[:1]):
            vb = P.vec(b) if name != "assembled" else st.get_spacetime_rhs()
            k = dict(kw)
            if c["stab"] or c["N"] > 3 or n > 60:
                k.setdefault("maxsteps", 1500)
            ok, r = guarded(rec, "solve:raises", get_gmres_solution, matw, vb, prew, **k)
            if not ok:
                rec.failures[-1]["message"] += f" {P.cfg_id(c)} {kw} {name} cond={sv[0] / sv[-1]:.1e}"
                return
            rec.step()
            rec.state(P.cfg_id(c), str(c["stab"]), str(kw), name)
            x, res = np.array(r[0].array), np.array(r[1].array)
            target = max(k.get("tol", 1e-12), k.get("reltol", 1e-7) * np.linalg.norm(Li @ b))
            eta = np.linalg.norm(Li @ (b - A @ x))
            noise = 1e-14 * (np.abs(Li) @ (np.abs(A) @ np.abs(x) + np.abs(b))).max() * n
            if not eta <= 1.01 * target + 30 * noise:
                rec.fail("residual", f"preconditioned residual {eta:.2e} exceeds the requested {target:.2e} for {name}; {P.cfg_id(c)} {kw}",
                         cfg=c, setting=kw, rhs=name)
                return
            err = np.linalg.norm(x - direct)
            bound = (1.01 * target + 30 * noise) / sv[-1] + 1e-9 * np.linalg.norm(direct)
            rec.expect(err <= bound, "solution", f"solution differs from the direct one by {err:.2e} (allowed {bound:.2e}) for {name}; "
                       f"{P.cfg_id(c)} {kw}", cfg=c, setting=kw, rhs=name)
            rec.expect(np.abs(res - (b - A @ x)).max() <= 1e-8 * (np.abs(b).max() + (np.abs(A) @ np.abs(x)).max()) + 30 * noise,
                       "true-residual", f"second result is not the true residual for {name}; {P.cfg_id(c)} {kw}", cfg=c)
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "dofs": n, "cond": float(sv[0] / sv[-1])})
