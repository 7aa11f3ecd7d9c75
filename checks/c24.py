"""C24: errors of the reconstruction under simultaneous refinement of mesh and slabs."""
import itertools

import numpy as np
import scipy.sparse.linalg as sla
import stprob as P
import ufl
from runner import guarded

LEVEL = "model_checking"
RULE = ("every order combination (q, q*, k, k*) within the bounds x travelling mode x initial data flag x every level of the refinement "
        "sequence (4, 8, 16 cells and slabs; 32 in the thorough tier up to second order); a state is one discrete reconstruction, a transition one "
        "refinement step, on which every reported error must drop at about the rate of its order")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "manufactured standing waves on the unit interval, data domain "
               "satisfying the geometric control condition, systems solved directly", "rates are asserted between the two finest levels"]
TIMEOUT = 300
STAB = {"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}


def cases(tier, seed):
    out = []
    for (q, k, ks), m in itertools.product(((1, 1, 1), (2, 2, 1), (2, 2, 2), (3, 3, 3), (3, 3, 1)), (1, 2) if tier == "quick" else (1, 2, 3)):
        for qs in sorted({0, 1, q}):
            for wp in (False, True):
                if wp and (m > 1 or qs > 0) and tier == "quick":
                    continue
                out.append({"q": q, "qs": qs, "k": k, "ks": ks, "m": m, "wp": wp, 
                            # beyond 16 cells the rounding error of the direct solve dominates for third order
                            "levels": [4, 8, 16, 32] if tier == "thorough" and k < 3 else [4, 8, 16]})
    return out


def level(rec, c, n):
    cfg = P.default_cfg(q=c["q"], qs=c["qs"], k=c["k"], ks=c["ks"], N=n, T=1.0, mesh=["interval", n], wp=c["wp"], stab=STAB)
    dom = P.dst.DataDomain(indicator_function=lambda x: np.where((x[0] <= 0.25) | (x[0] >= 0.75), 1.0, 0.0))
    w = c["m"] * np.pi
    pr = P.Problem(cfg, omega=dom, setup=True, sol=(lambda t, x: ufl.cos(w * t) * ufl.sin(w * x[0]), lambda t, x: -w * ufl.sin(w * t) * ufl.sin(w * x[0])))
    st = pr.st
    if c["wp"]:
        st.u1_0.interpolate(lambda x: np.sin(w * x[0]))
        st.u2_0.interpolate(lambda x: 0.0 * x[0])
    ok, r = guarded(rec, "assemble", lambda: (st.get_spacetime_matrix(), st.get_spacetime_rhs()))
    if not ok:
        return None
    x = sla.spsolve(P.sparse(r[0]).tocsc(), np.array(r[1].array))
    ok, e = guarded(rec, "errors", st.measured_errors, P.vec(x))
    return {k: float(v) for k, v in e.items()} if ok else None


def run_case(case, rec):
    prev = None
    d = f"q={case['q']} q*={case['qs']} k={case['k']} k*={case['ks']} mode {case['m']} {'initial data' if case['wp'] else ''}"
    k = case["k"]
    for n in case["levels"]:
        e = level(rec, case, n)
        if e is None:
            return
        rec.state(str(sorted(case.items())), n)
        rec.trace()
        if prev:
            rec.step()
            for name, v in e.items():
                derivative = "ut" in name or "u_t" in name
                rate = np.log2(prev[name] / v) if v > 0 else np.inf
                need = k - 0.4 if derivative else k
                small = v < 1e-8
                rec.expect(small or v < prev[name], f"decrease:{name}", f"{name} does not drop from {n // 2} to {n} cells: {prev[name]:.2e} -> {v:.2e}; {d}")
                if n >= 16:
                    rec.expect(small or rate >= need, f"rate:{name}", f"{name} drops at rate {rate:.2f} (expected about {k if derivative else k + 1}) from "
                               f"{n // 2} to {n} cells; {d}")
        prev = e
    rec.sample({"case": d, "finest": prev})
