"""C13: matrix-free space-time product against the assembled matrix, on every unit vector."""
import configs
import numpy as np
import stprob as P
from petsc4py import PETSc
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration within the bounds x every unit vector, zero and four dense vectors, applied directly and through the "
        "PETSc adapter, into outputs holding garbage; a state is (configuration, input vector), a transition one product compared")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "small meshes, at most 5 slabs, orders up to 3"]


def cases(tier, seed):
    return configs.chunk(configs.operator_configs(tier), 8 if tier == "quick" else 4)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def run_cfg(c, rec):
    pr = P.Problem(c)
    st = pr.st
    ref = P.Ref(c, pr.msh)
    ok, _ = guarded(rec, "prepare:raises", st.prepare_precondition_gmres)
    if not ok:
        return
    ok, A = guarded(rec, "matrix:raises", lambda: P.dense(st.get_spacetime_matrix()))
    if not ok:
        return
    n = len(A)
    known = None
    if c["fw"] and c["N"] > 1:
        # known finding: the coupling of the forward jumps is missing; what remains must be exact
        p = P.perm_of(st.fes)
        known = np.empty_like(A)
        known[np.ix_(p, p)] = ref.full(forward=False)
    wrap = P.dst.SpaceTimePETScMatrixWrapper(st)
    shell = PETSc.Mat().createPython((n, n), wrap, comm=PETSc.COMM_SELF)
    shell.setUp()
    scale = np.abs(A) @ np.ones(n)
    scale = np.maximum(scale, 1e-10 * scale.max())
    for name, x in P.unit_probes(n):
        outs = []
        for via in ("direct", "adapter"):
            vin = P.vec(x)
            vout = P.vec(np.full(n, 3.5) if name != "e0" else np.full(n, np.nan))
            call = (lambda: st.apply_spacetime_matrix(vin, vout)) if via == "direct" else (lambda: shell.mult(vin, vout))  # noqa: B023
            ok, _ = guarded(rec, f"{via}:raises", call)
            if not ok:
                return
            rec.step()
            rec.expect(np.array_equal(vin.array, x), "input-changed", f"input vector changed ({via}); {P.cfg_id(c)}", cfg=c, vec=name)
            outs.append(np.array(vout.array))
        rec.state(P.cfg_id(c), c["numbering"], name)
        y = A @ x
        tol = 1e-9 * scale * np.abs(x).max() + 1e-300
        for via, got in zip(("direct", "adapter"), outs):
            if np.all(np.abs(got - y) <= tol):
                continue
            if known is not None and np.all(np.abs(got - known @ x) <= tol):
                rec.fail("forward-jumps", "matrix-free product leaves out the coupling terms of forward jumps "
                         f"(jumps_in_fw_problem, more than one slab); {P.cfg_id(c)}", cfg=c, vec=name)
                continue
            bad = int(np.argmax(np.abs(got - y) - tol)) if np.all(np.isfinite(got)) else -1
            rec.fail(f"product:{via}", f"product differs from the assembled matrix for input {name} at dof {bad}: "
                     f"{got[bad]:.6g} instead of {y[bad]:.6g}; {P.cfg_id(c)}", cfg=c, vec=name)
            return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "dofs": n, "probes": n + 5})
