"""C17: data enter exactly on the data domain; data-domain descriptions can be shared."""
import itertools

import configs
import numpy as np
import stprob as P
import ufl
from runner import guarded

LEVEL = "model_checking"
RULE = ("(a) every indicator x mesh x orders within the bounds: data block of full matrix, slab matrix and right-hand side; "
        "(b) every sequence up to the given length of building problems from shared data-domain descriptions on several meshes; "
        "a state is one configuration or one prefix of a sequence, a transition one build or comparison")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)",
               "fitted indicators are sampled at the cell midpoint (the interpolation point of piecewise constants)"]

IND = {
    "one": lambda x: 1.0 + 0.0 * x[0],
    "zero": lambda x: 0.0 * x[0],
    "half": P.half_indicator,
    "rough": lambda x: 1.0 * (x[0] <= 0.3) + 0.25 * (x[0] > 0.7),
    "edges": lambda x: np.array([1.0 if (v <= 0.25 or v >= 0.75) else 0.0 for v in x[0]]),
    "narrow": lambda x: np.where(np.logical_and(x[0] > 0.05, x[0] < 0.3), 1.0, 0.0),
    "graded": lambda x: x[0] ** 2 + 0.5,
    "bool": lambda x: x[0] <= 0.5,
    "y": lambda x: np.where(x[1] <= 0.6, 1.0, 0.0),
}
UNF = {
    "u-linear": (lambda x, d: 0.5 + x[0] / 2, lambda X: 0.5 + X[..., 0] / 2),
    "u-quad": (lambda x, d: 1.0 + x[0] ** 2, lambda X: 1.0 + X[..., 0] ** 2),
    "u-const": (lambda x, d: ufl.as_ufl(0.75), lambda X: 0.75 + 0 * X[..., 0]),
}
SHARED_MESHES = (["interval", 2], ["irregular", 4], ["skew"])
SHARED = ("half", "rough", "edges")


def cases(tier, seed):
    b = []
    for ind in (*IND, *UNF):
        for m in (["interval", 1], ["interval", 4], ["irregular", 5], ["square", 2, 1], ["skew"], ["quad", 2, 1], ["tet", 1], ["hex", 2, 1, 1]):
            for q, k in ((0, 1), (1, 1), (2, 2)) if tier == "quick" else itertools.product((0, 1, 2, 3), (1, 2)):
                if ind == "y" and m[0] in ("interval", "irregular") or (m[0] in ("tet", "hex") and k > 1):
                    continue
                b.append({"ind": ind, "mesh": m, "q": q, "k": k})
    out = configs.chunk(b, 24, "terms")
    depth = 3 if tier == "quick" else 4
    letters = list(itertools.product(SHARED[:2] if tier == "quick" else SHARED, range(len(SHARED_MESHES))))
    out += [{"first": list(a), "depth": depth, "letters": [list(x) for x in letters]} for a in letters]
    return out


def run_case(case, rec):
    if "terms" in case:
        for t in case["terms"]:
            term(t, rec)
    else:
        sequences(case, rec)


def make(omega, msh, q, k, gamma, N=2, sol=None):
    c = P.default_cfg(q=q, qs=0, k=k, ks=k, N=N, T=1.5, stab={"data": gamma, "dual": 0.5, "primal": 0.25, "primal-jump": 0.75})
    return P.Problem(c, msh=msh, omega=omega, sol=sol or (lambda t, x: 1.0 + 0.0 * x[0], lambda t, x: 0.0 * x[0])), c


def mass(msh, k, weight):
    """(weight u, v) for all canonical nodes; weight(cells, X)."""
    from dolfinx import _fe
    fe = msh._fe
    pts, w = _fe.quadrature(fe.cell, 2 * k + 3)
    X = fe.v0[:, None, :] + np.einsum("cij,qj->cqi", fe.J, pts)
    W = w[None, :] * fe.detJ[:, None] * weight(X)
    T = _fe.tabulate_ref(fe.cell, k, pts)
    nodes, coords = fe.nodes(k)
    D, L = np.zeros((len(coords), len(coords))), np.zeros(len(coords))
    for e, nd in enumerate(nodes):
        D[np.ix_(nd, nd)] += np.einsum("q,qi,qj->ij", W[e], T, T)
        L[nd] += W[e] @ T
    return D, L


def reference_weight(name, msh):
    if name in UNF:
        return UNF[name][1]
    fe = msh._fe
    mid = np.zeros((3, len(fe.cells)))
    mid[:fe.gdim] = np.array([fe.x[c].mean(axis=0) for c in fe.cells]).T
    vals = np.asarray(IND[name](mid), dtype=float)
    return lambda X: np.broadcast_to(vals[:, None], X.shape[:2])


def term(t, rec):
    name, q, k = t["ind"], t["q"], t["k"]
    msh = P.make_mesh(t["mesh"])
    if name in UNF:
        f = UNF[name][0](ufl.SpatialCoordinate(msh), msh._fe.gdim)
        dom = P.dst.DataDomain(indicator_function=f, fitted=False)
    else:
        f = IND[name]
        dom = P.dst.DataDomain(indicator_function=f)
    mats, slabs, rhss = [], [], []
    for gamma in (0.0, 3.0):
        ok, r = guarded(rec, "build:raises", make, dom, msh, q, k, gamma)
        if not ok:
            return
        pr, c = r
        rec.step()
        rec.expect(dom.indicator_function is f and dom.fitted == (name in IND), "mutated",
                   f"building a problem altered the caller's data domain ({t})", term=t)
        st = pr.st
        mats.append(P.canon(st.fes, P.dense(st.get_spacetime_matrix())))
        slabs.append(P.canon(st.fes_p, P.dense(st.get_slab_matrix())))
        rhss.append(P.canon(st.fes, np.array(st.get_spacetime_rhs().array)))
    D, L = mass(msh, k, reference_weight(name, msh))
    n = len(L)
    tm = P.time_float(q, 0)["M_time_q_q"]
    ph = np.array([float(P.pint01(p)) for p in P.lagrange(q)])
    dt = c["T"] / c["N"]
    N = c["N"]
    for what, got, slabs_n in (("matrix", mats[1] - mats[0], N), ("slab", slabs[1] - slabs[0], 1)):
        want = np.zeros_like(got)
        m = (q + 1) * n
        for s in range(slabs_n):
            want[s * m:(s + 1) * m, s * m:(s + 1) * m] = 3.0 * dt * np.kron(tm, D)
        err = np.abs(got - want).max() / max(np.abs(want).max(), 1e-3)
        rec.step()
        rec.state(str(t), what)
        rec.expect(err < 1e-8, f"{what}", f"data term of the {what} does not follow the data domain ({err:.1e}); {t}", term=t)
    want = np.zeros_like(rhss[1])
    for s in range(N):
        for j in range(q + 1):
            o = (s * (q + 1) + j) * n
            want[o:o + n] = 3.0 * dt * ph[j] * L
    err = np.abs(rhss[1] - rhss[0] - want).max() / max(np.abs(want).max(), 1e-3)
    rec.step()
    rec.state(str(t), "rhs")
    rec.expect(err < 5e-5, "rhs", f"data term of the right-hand side does not follow the data domain ({err:.1e}); {t}", term=t)
    rec.trace()
    rec.sample({"term": t, "err": float(err)})


_fresh = {}


def observe(pr):
    st = pr.st
    return np.concatenate([P.canon(st.fes, P.dense(st.setup_spacetime_matrix(st.fes)[0])).ravel(),
                           P.canon(st.fes, np.array(st.get_spacetime_rhs().array))])


def fresh(ind, mi):
    if (ind, mi) not in _fresh:
        dom = P.dst.DataDomain(indicator_function=IND[ind])
        _fresh[(ind, mi)] = observe(make(dom, P.make_mesh(SHARED_MESHES[mi]), 0, 1, 2.0, N=1)[0])
    return _fresh[(ind, mi)]


def sequences(case, rec):
    letters = [tuple(x) for x in case["letters"]]
    meshes = [P.make_mesh(m) for m in SHARED_MESHES]
    for n in range(1, case["depth"] + 1):
        for rest in itertools.product(letters, repeat=n - 1):
            word = [tuple(case["first"]), *rest]
            doms = {k: P.dst.DataDomain(indicator_function=IND[k]) for k in SHARED}
            built = []
            for ind, mi in word:
                ok, r = guarded(rec, "sequence:raises", make, doms[ind], meshes[mi], 0, 1, 2.0, 1)
                if not ok:
                    return
                built.append(r[0])
                rec.step()
            rec.state("seq", word)
            for k in SHARED:
                rec.expect(doms[k].indicator_function is IND[k] and doms[k].fitted is True, "mutated",
                           f"caller's data domain altered by {word}", word=word)
            # first and last problem of the sequence behave as fresh ones
            for i in {0, n - 1}:
                ok, got = guarded(rec, "sequence:raises", observe, built[i])
                if not ok:
                    return
                e = P.relerr(got, fresh(*word[i]))
                rec.expect(e < 1e-10, "shared", f"problem {i} of {word} differs from the one built alone ({e:.1e})", word=word)
            rec.trace()
