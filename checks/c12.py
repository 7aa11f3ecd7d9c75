"""C12: slab matrices, coupling and mass matrices against the full system (real one and reference model)."""
import configs
import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration within the bounds and every order in which the slab matrices are requested first; a state is one "
        "configuration with one requested matrix, a transition one comparison with the full system or the reference model")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "small meshes, at most 5 slabs, orders up to 3",
               "forward-jump problems: slab matrices hold the jump terms tested with the dual variables (no adjoint coupling)"]


def cases(tier, seed):
    return configs.chunk(configs.operator_configs(tier), 8 if tier == "quick" else 4)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def run_cfg(c, rec):
    pr = P.Problem(c)
    ref = P.Ref(c, pr.msh)
    st = pr.st
    comp, off = ref.layout(1)
    _c, offN = ref.layout(c["N"])

    def cmp(key, got, want, offs, what):
        rec.step()
        rec.state(P.cfg_id(c), c["numbering"], key)
        if got.shape != want.shape:
            rec.fail(key, f"{what}: shape {got.shape} instead of {want.shape}; {P.cfg_id(c)}", cfg=c)
            return
        e, w = P.blockwise_err(got, want, offs)
        rec.expect(e < 1e-8, key, f"{what} differs by {e:.1e} in block {w}; {P.cfg_id(c)}", cfg=c)

    slab = ref.slab()
    if c["fw"]:
        slab = P.slab_with_forward(ref, slab)
    first = slab if c["wp"] else ref.slab(jumps=False)
    ok, S = guarded(rec, "slab:raises", lambda: P.canon(st.fes_p, P.dense(st.get_slab_matrix())))
    ok2, F = guarded(rec, "first:raises", lambda: P.canon(st.fes_p, P.dense(st.get_slab_matrix_first_slab())))
    if not (ok and ok2):
        return
    cmp("slab", S, slab, off, "slab matrix")
    cmp("first", F, first, off, "first-slab matrix")
    # a fresh object asked for the first-slab matrix before anything else
    other = P.Problem(c, msh=pr.msh).st
    ok, F2 = guarded(rec, "first-alone:raises", lambda: P.canon(other.fes_p, P.dense(other.get_slab_matrix_first_slab())))
    if ok:
        cmp("first-alone", F2, first, off, "first-slab matrix (requested first)")
    ok, B = guarded(rec, "bfi:raises", lambda: P.canon(st.fes_p, __import__("dolfinx")._eval.assemble(st.get_slab_bfi().ufl).toarray()))
    if ok:
        cmp("bfi", B, slab, off, "slab bilinear form")
    if not c["fw"]:
        A = P.canon(st.fes, P.dense(st.setup_spacetime_matrix(st.fes, precond=True)[0]))
        for s in range(c["N"]):
            cmp("block", ref.slab_block(A, s), S if s else F, off, f"diagonal block {s} of the block lower-triangular matrix")
        Af = P.canon(st.fes, P.dense(st.setup_spacetime_matrix(st.fes)[0]))
    ok, _ = guarded(rec, "prepare:raises", st.prepare_precondition_gmres)
    if ok:
        C = P.canon(st.fes_coupling, P.dense(st.coupling_matrix_between_slices))
        n = ref.S.nV
        cmp("coupling", C, ref.coupling(), np.arange(5) * n, "inter-slab coupling matrix")
        Mb = P.canon(st.fes_slab_bnd, P.dense(st.scaled_mass_matrix_between_slices))
        cmp("mass", Mb, ref.boundary_mass(), np.arange(3) * n, "scaled mass matrix between slabs")
        if c["N"] > 1 and not c["fw"]:
            # off-diagonal jump block of the real full matrix
            comp2, off2 = ref.layout(c["N"])
            for f in range(2):
                i, j = comp2[(f, 1, 0)], comp2[(f, 0, ref.q)]
                blk = Af[off2[i]:off2[i + 1], off2[j]:off2[j + 1]]
                m = Mb[f * n:(f + 1) * n, f * n:(f + 1) * n]
                cmp("jump-block", blk, -m, np.array([0, n]), f"jump block of field {f} in the full matrix")
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "slab_dofs": len(S), "norm": float(np.abs(S).max())})
