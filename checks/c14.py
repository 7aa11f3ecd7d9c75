"""C14: time-marching preconditioners against the block lower-triangular matrix, on every unit vector."""
import configs
import numpy as np
import stprob as P
from petsc4py import PETSc
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration within the bounds x every unit vector, zero and four dense vectors, for both preconditioners and the "
        "PETSc adapter, each following different earlier applications; a state is (configuration, right-hand side), a transition "
        "one application compared with the solution of the block lower-triangular matrix")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "slab solvers are exact dense LU factorisations",
               "small meshes, at most 5 slabs, orders up to 3",
               "forward-jump problems (plain variant): the slab recursion with the library's slab matrices"]


def cases(tier, seed):
    return configs.chunk(configs.operator_configs(tier), 8 if tier == "quick" else 4)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def run_cfg(c, rec):
    pr = P.Problem(c)
    st = pr.st
    ref = P.Ref(c, pr.msh)
    ok, _ = guarded(rec, "prepare:raises", pr.ready)
    if not ok:
        return
    p = P.perm_of(st.fes)
    n = len(p)
    L = np.empty((n, n))
    L[np.ix_(p, p)] = P.march_matrix(ref)
    if not c["fw"]:
        A = P.dense(st.setup_spacetime_matrix(st.fes, precond=True)[0])
        rec.expect(P.relerr(A, L) < 1e-8, "matrix", f"block lower-triangular matrix differs from the model; {P.cfg_id(c)}", cfg=c)
        L = A
    cond = np.linalg.cond(L)
    if not cond < 1e12:
        rec.count("skipped_singular")
        return
    inv = np.linalg.inv(L)
    scale = np.abs(inv) @ np.ones(n)
    scale = np.maximum(scale, 1e-8 * scale.max())

    def plain(b, x):
        st.pre_time_marching(b, x)

    def improved(b, x):
        st.pre_time_marching_improved(b, x)
    variants = [("plain", plain)]
    if c["fw"]:
        b = P.vec(np.ones(n))
        x = P.vec(np.zeros(n))
        rec.step()
        try:
            st.pre_time_marching_improved(b, x)
            rec.fail("refuse", f"improved time marching accepts a forward-jump problem; {P.cfg_id(c)}", cfg=c)
        except ValueError:
            pass
    else:
        wrap = P.dst.SpaceTimePETScPreconditionerWrapper(st)
        pc = PETSc.PC().create(PETSc.COMM_SELF)
        pc.setType("python")
        pc.setPythonContext(wrap)
        eye = PETSc.Mat().createAIJ((n, n), comm=PETSc.COMM_SELF)
        eye.setUp()
        eye.assemble()
        pc.setOperators(eye)
        pc.setUp()
        variants += [("improved", improved), ("adapter", lambda b, x: pc.apply(b, x))]
    const = 1e-11 * max(1.0, 2 * float(np.prod(np.ptp(pr.msh._fe.x, axis=0))))   # the forms carry a constant of 1e-20
    for name, b in P.unit_probes(n):
        want = inv @ b
        tol = 1e-13 * cond * np.abs(want).max() + 1e-9 * scale * (np.abs(b).max() + const)
        rec.state(P.cfg_id(c), c["numbering"], name)
        for via, f in variants:
            vb, vx = P.vec(b), P.vec(np.full(n, -2.5))
            ok, _ = guarded(rec, f"{via}:raises", lambda: f(vb, vx))  # noqa: B023
            if not ok:
                return
            rec.step()
            rec.expect(np.array_equal(vb.array, b), f"{via}:rhs-changed", f"right-hand side changed; {P.cfg_id(c)}", cfg=c, vec=name)
            d = np.abs(vx.array - want)
            if not np.all(d <= tol):
                i = int(np.argmax(np.nan_to_num(d - tol, nan=np.inf)))
                rec.fail(f"{via}", f"{via} time marching differs from the block lower-triangular solve for rhs {name} at dof {i}: "
                         f"{vx.array[i]:.8g} instead of {want[i]:.8g}; {P.cfg_id(c)}", cfg=c, vec=name)
                return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "dofs": n, "cond": float(cond)})
