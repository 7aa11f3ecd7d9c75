"""C18: right-hand side against exact integration of polynomial solutions."""
import itertools

import configs
import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration within the bounds x every monomial solution t^a x^b (the right-hand side is linear in the solution) and, "
        "for well-posed problems, every nodal unit vector as initial value and velocity; a state is (configuration, solution), a "
        "transition one vector compared with exact integration")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "polynomial solutions, integrated exactly by the rule up "
               "to its tabulated digits (relative tolerance 5e-5)", "t = 0 is the initial time"]


def configurations(tier):
    b = configs.Bag()
    for q, qs, w, f in itertools.product(range(4), (0, 1, 2), (False, True), (False, True)):
        b.add(q=q, qs=qs, wp=w, fw=f, N=3, T=1.5, mesh=["irregular", 2])
    for k, ks, w in itertools.product((1, 2, 3), (1, 2, 3), (False, True)):
        b.add(k=k, ks=ks, wp=w, q=1, qs=0, N=2, T=0.75, mesh=["irregular", 2])
    for N, T, w in itertools.product((1, 2, 3, 4, 5, 7), (0.5, 1.0, 2.0), (False, True)):
        b.add(N=N, T=T, wp=w, q=2, qs=1, mesh=["interval", 2])
    for (N, T), w in itertools.product(((12, 6.0), (36, 9.0), (2, 1e-3), (2, 80.0), (5, 30.0)), (False, True)):
        b.add(N=N, T=T, wp=w, q=1, qs=0, mesh=["interval", 2])
    for m, om in itertools.product((["interval", 3], ["skew"], ["quad", 2, 1], ["tet", 1], ["hex", 2, 1, 1]), ("half", "rough", "unfitted")):
        b.add(mesh=m, omega=om, q=1, qs=0, N=2, wp=True)
    for num in ("blocked", "interleaved"):
        b.add(numbering=num, q=1, qs=1, wp=True, mesh=["irregular", 3])
    if tier != "quick":
        for q, qs, k, ks, w, N in itertools.product(range(4), range(4), (1, 2), (1, 2), (False, True), (1, 2, 4)):
            b.add(q=q, qs=qs, k=k, ks=ks, wp=w, N=N, T=1.75, mesh=["irregular", 3], omega="rough")
    return b.out


def cases(tier, seed):
    return configs.chunk(configurations(tier), 5)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def monomial(a, bx):
    def v(t, x):
        return t**a * x[0] ** bx + 0.0 * x[0]

    def num(t, X):
        return t**a * X[..., 0] ** bx
    return v, num


def run_cfg(c, rec):
    msh = P.make_mesh(c["mesh"])
    ref = P.Ref(c, msh)
    comp, off = ref.layout(c["N"])
    n = ref.S.nV
    zero = (np.zeros(n), np.zeros(n))
    fe = msh._fe
    coords = fe.nodes(c["k"])[1]

    def rhs(sol, init=None):
        pr = P.Problem(c, msh=msh, sol=sol)
        st = pr.st
        if c["wp"] or init is not None:
            for f, val in ((st.u1_0, (init or zero)[0]), (st.u2_0, (init or zero)[1])):
                f.x.array[f.function_space.component(0)[2]] = val
        return P.canon(st.fes, np.array(st.get_spacetime_rhs().array))

    def check(key, name, sol, num, init):
        ok, got = guarded(rec, "rhs:raises", rhs, sol, init)
        if not ok:
            return False
        rec.step()
        rec.state(P.cfg_id(c), c["numbering"], name)
        want = ref.rhs(num, u0=init or zero)
        ndual = off[comp[(2, 0, 0)]]
        scale = max(np.abs(want).max(), 1e-12)
        if not np.abs(got[ndual:]).max() < 1e-12:
            rec.fail("dual", f"right-hand side has entries for the dual variables; {name} {P.cfg_id(c)}", cfg=c, sol=name)
            return False
        worst = 0.0
        for i in range(comp[(2, 0, 0)]):
            d = np.abs(got[off[i]:off[i + 1]] - want[off[i]:off[i + 1]]).max()
            worst = max(worst, d / max(np.abs(want[off[i]:off[i + 1]]).max(), 1e-3 * scale, 1e-12)) if np.isfinite(d) else np.inf
        if not worst < 5e-4:
            rec.fail(key, f"right-hand side for {name} is off by {worst:.1e}; {P.cfg_id(c)}", cfg=c, sol=name)
            return False
        return True
    worst = None
    tmax = 3
    for a in range(tmax + 1):
        for bx in (0, 1, 2):
            v, num = monomial(a, bx)
            if not check("data", f"t^{a}x^{bx}", (v, v), num, None):
                return
    for s in (1e-8, 1e8):
        if not check("scaled", f"{s:g} t x", (lambda t, x: s * (1.0 + t) * x[0],) * 2, lambda t, X: s * (1.0 + t) * X[..., 0], None):
            return
        if not check("scaled", f"{s:g} initial", (lambda t, x: 0.0 * x[0],) * 2, lambda t, X: 0.0 * X[..., 0], (s * np.cos(np.arange(n)), s * np.sin(1.0 + np.arange(n)))):
            return
    z = (lambda t, x: 0.0 * x[0], lambda t, x: 0.0 * x[0])
    for field in range(2):
        for i in range(min(n, 6)):
            init = [np.zeros(n), np.zeros(n)]
            init[field][i] = 1.0
            if not check("initial", f"initial field {field} node {i}", z, lambda t, X: 0.0 * X[..., 0], tuple(init)):
                return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "nodes": len(coords), "worst": worst})
