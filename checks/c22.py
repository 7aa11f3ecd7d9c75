"""C22: two-level preconditioner against its definition, on every unit vector."""
import itertools

import configs
import numpy as np
import stprob as P
import twolevel as TL
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration and nested mesh pair within the bounds, prepared in both orders, also after another coarse mesh had been prepared, x every unit vector, zero and four dense "
        "right-hand sides, applied one after the other; a state is (configuration, right-hand side), a transition one application "
        "compared with coarse correction plus time marching of the remaining residual")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "simplex meshes, one uniform refinement, fitted data "
               "domains resolved by the coarse mesh", "coarse and slab solvers are exact dense LU factorisations"]


def configurations(tier):
    b = configs.Bag()
    for q, qs, N, w in itertools.product(range(4), range(3), (1, 2, 3), (False, True)):
        if (q + 1) * N > (4 if tier == "quick" else 8):
            continue
        b.add(q=q, qs=qs, N=N, wp=w, mesh=["interval", 2], T=0.75, numbering=("permuted", "interleaved", "blocked")[(q + N) % 3])
    for (N, T), w in itertools.product(((6, 3.0), (2, 1e-2), (2, 25.0)), (False, True)):
        b.add(q=0, qs=0, N=N, T=T, wp=w, mesh=["interval", 2])
    b.add(q=0, qs=0, N=36, T=9.0, wp=True, mesh=["interval", 1])
    for m, (k, ks), w in itertools.product(TL.PAIRS, ((1, 1), (2, 1), (2, 2), (1, 2), (3, 1)), (False, True)):
        if m[0] == "tet" and (k > 1 or ks > 1) or m[0] in ("square", "skew", "tet") and tier == "quick" and (k > 2 or w and k > 1):
            continue
        b.add(mesh=m, k=k, ks=ks, q=1, qs=0, N=1 if m[0] in ("square", "skew", "tet") else 2, wp=w,
              omega="half" if m == ["interval", 2] or m == ["skew"] and False else "one")
    return b.out


def cases(tier, seed):
    return configs.chunk(configurations(tier), 3)


def run_case(case, rec):
    for i, c in enumerate(case["cfgs"]):
        run_cfg(c, rec, i % 2 == 0, ("none", "scaled", "refined")[(c["q"] + c["N"] + c["k"] + i) % 3])


def run_cfg(c, rec, coarse_first, before):
    coarse, fine = TL.pair(c["mesh"])
    f = P.half_indicator if c["omega"] == "half" else (lambda x: 1.0 + 0.0 * x[0])
    c = dict(c, omega="half")  # the reference samples the same function
    dom = P.dst.DataDomain(indicator_function=f)
    pr = P.Problem(c, msh=fine, omega=dom)
    st = pr.st

    def setup():
        TL.prepare_other(st, c, before)
        if coarse_first:
            st.prepare_coarse_grid_correction(coarse)
            st.prepare_precondition_gmres()
        else:
            st.prepare_precondition_gmres()
            st.prepare_coarse_grid_correction(coarse)
        pr.set_solvers()
        Ac = st.get_spacetime_matrix_coarse()
        st.set_solver_coarse(P.LU(Ac))
        return Ac
    ok, Ac = guarded(rec, "prepare:raises", setup)
    if not ok:
        return
    save = P.omega_value
    P.omega_value = lambda _c, X: np.asarray(f(np.moveaxis(X, -1, 0)), dtype=float)
    try:
        refc, reff = P.Ref(c, coarse), P.Ref(c, fine)
    finally:
        P.omega_value = save
    pc, pf = P.perm_of(st.fes_coarse), P.perm_of(st.fes)
    nf = len(pf)
    Acc = P.canon(st.fes_coarse, P.dense(Ac))
    wantc = refc.full()
    rec.step()
    e, w = P.blockwise_err(Acc, wantc, refc.layout(c["N"])[1])
    if not rec.expect(e < 1e-8, "coarse-matrix", f"coarse matrix differs from the full system on the coarse mesh ({e:.1e}, block {w}); "
                      f"{P.cfg_id(c)}", cfg=c):
        return
    Pm, Rm = TL.transfer(c, coarse, fine)
    A, L = reff.full(), P.march_matrix(reff)
    Q = Pm @ np.linalg.solve(wantc, Rm)
    Li = np.linalg.inv(L)
    M = Q + Li @ (np.eye(nf) - A @ Q)
    noise = 1e-13 * (np.linalg.cond(L) + np.linalg.cond(wantc)) * (np.abs(M).max() + np.abs(Li).max() * np.abs(A).max() * np.abs(Q).max())
    for name, b in P.unit_probes(nf):
        d = np.empty(nf)
        d[pf] = b
        vb, vx = P.vec(d), P.vec(np.full(nf, 5.0))
        ok, _ = guarded(rec, "apply:raises", st.pre_twolvl, vb, vx)
        if not ok:
            return
        rec.step()
        rec.state(P.cfg_id(c), coarse_first, before, name)
        rec.expect(np.array_equal(vb.array, d), "rhs-changed", f"right-hand side changed; {P.cfg_id(c)}", cfg=c)
        want = M @ b
        err = np.abs(np.array(vx.array)[pf] - want).max()
        tol = 1e-8 * np.abs(want).max() + min(noise, 1e-5 * np.abs(M).max()) * np.abs(b).max() + 1e-18 * np.abs(Li).sum(1).max()
        if not rec.expect(err <= tol, "twolevel", f"two-level preconditioner differs from its definition by {err:.1e} (allowed {tol:.1e}) "
                          f"for {name}; {P.cfg_id(c)}", cfg=c, vec=name):
            return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "fine": nf, "coarse": len(pc)})
