"""C11: assembled full space-time matrices against the reference model, for every configuration in the bounds."""
import itertools

import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every combination of time orders, space orders, slabs, end time, flags, data domain, mesh and dof numbering within the "
        "bounds; a state is one configuration and variant, a transition one matrix block compared with the reference model")
ASSUMPTIONS = [
    "the finite element library is replaced by a stand-in (fakefem/) with affine cells and exact quadrature",
    "dual space order at most the primal one plus one (quadrature degree of the library), space orders up to 3, time orders up to 3, at most 4 slabs, meshes of at most 8 cells",
]


def configs(tier):
    out = []
    seen = set()

    def add(**kw):
        c = P.default_cfg(**kw)
        if c["ks"] > c["k"] + 1:   # beyond the quadrature degree of the library (2k + 3): not integrated exactly
            return
        key = repr(sorted(c.items(), key=str))
        if key not in seen:
            seen.add(key)
            out.append(c)
    orders = [(q, s) for q in range(4) for s in range(4)]
    flags = [(f, w) for f in (False, True) for w in (False, True)]
    # all time orders x flags on a small interval mesh
    for (q, s), (f, w) in itertools.product(orders, flags):
        if tier == "quick" and q + s > 4 and (f or w):
            continue
        add(q=q, qs=s, fw=f, wp=w, N=2 if q + s > 3 else 3, T=0.75)
    # space orders x time orders
    for k, ks in itertools.product((1, 2, 3), (1, 2, 3)):
        for q, s in ((1, 0), (1, 1), (2, 1)) if tier == "quick" else orders:
            add(k=k, ks=ks, q=q, qs=s, mesh=["irregular", 3], T=1.25)
    # meshes
    for m in (["interval", 1], ["irregular", 3], ["square", 1, 1], ["square", 2, 1], ["skew"], ["quad", 2, 1], ["tet", 1],
              ["hex", 2, 1, 1]):
        for k, ks in ((1, 1), (2, 1), (2, 2)) if m[0] in ("tet", "hex") and tier == "quick" else itertools.product((1, 2, 3), repeat=2):
            if m[0] in ("tet", "hex") and max(k, ks) == 3:
                continue
            add(mesh=m, k=k, ks=ks, q=1, qs=1 if k == 1 else 0, N=2, omega="rough" if m[0] != "skew" else "unfitted")
    # slabs, end times, data domains, numberings, weights
    for N, T in itertools.product((1, 2, 3, 4), (0.5, 1.0, 2.0)):
        for f, w in flags:
            add(N=N, T=T, fw=f, wp=w, q=1, qs=0)
    for (N, T), (f, w) in itertools.product(((9, 4.5), (13, 0.01), (2, 1e-4), (2, 60.0), (6, 200.0)), flags):
        add(N=N, T=T, fw=f, wp=w, q=1, qs=1, mesh=["irregular", 2])
    add(q=1, qs=0, N=36, T=9.0, wp=True, mesh=["interval", 1])
    add(q=1, qs=0, N=36, T=9.0, fw=True, mesh=["interval", 1])
    add(q=3, qs=3, k=2, ks=2, N=6, wp=True, mesh=["interval", 2], T=3.0)
    for m in (["scaled", 3, 0.02], ["scaled", 3, 40.0], ["interval", 40], ["square", 4, 4]):
        for w in (False, True):
            add(mesh=m, q=w, qs=0, N=2, wp=w, fw=w and m[0] == "scaled", T=0.6)
    add(mesh=["irregular", 12], k=2, ks=1, q=1, qs=1, N=2, T=3.0, omega="rough")
    for om, num in itertools.product(("half", "rough", "unfitted", "unfitted-cond"), ("blocked", "interleaved", "permuted")):
        for m in (["irregular", 4], ["skew"]):
            if om == "unfitted-cond" and m == ["skew"]:
                continue
            add(omega=om, numbering=num, mesh=m if om != "unfitted-cond" else ["interval", 4], q=1, qs=1)
    for stab in ({"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}, {"data": 0.0, "dual": 1.0, "primal": 1.0, "primal-jump": 0.0},
                 {"data": 1.0, "dual": 0.0, "primal": 0.0, "primal-jump": 1.0}):
        for f, w in flags:
            add(stab=stab, fw=f, wp=w, q=2, qs=1, k=2)
    if tier != "quick":
        for (q, s), (f, w), (k, ks), N in itertools.product(orders, flags, ((1, 1), (2, 1), (2, 2), (3, 3)), (1, 2, 3)):
            add(q=q, qs=s, fw=f, wp=w, k=k, ks=ks, N=N, mesh=["irregular", 2], T=1.5, omega="rough")
        for m in (["skew"], ["square", 2, 1], ["quad", 2, 2], ["tet", 1], ["hex", 2, 1, 1]):
            for (q, s), (k, ks) in itertools.product(((0, 0), (1, 1), (2, 2), (2, 0)), ((1, 1), (2, 2), (2, 1))):
                add(mesh=m, q=q, qs=s, k=k, ks=ks, N=2, T=0.7, omega="unfitted", fw=True, wp=True)
    return out


def cases(tier, seed):
    cfgs = configs(tier)
    size = 6 if tier == "quick" else 4
    return [{"cfgs": cfgs[i::max(1, len(cfgs) // size)]} for i in range(max(1, len(cfgs) // size))]


def compare(rec, key, got, want, off, what, c):
    rec.step((len(off) - 1) ** 2)
    rec.trace()
    if got.shape != want.shape:
        rec.fail(key, f"{what}: shape {got.shape}, expected {want.shape}", cfg=c)
        return
    e, where = P.blockwise_err(got, want, off)
    if e > 1e-8:
        rec.fail(key, f"{what} differs from the reference model by {e:.2e} (relative) in component block {where}; {P.cfg_id(c)}", cfg=c)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def run_cfg(c, rec):
    pr = P.Problem(c)
    st = pr.st
    ref = P.Ref(c, pr.msh)
    _comp, off = ref.layout(c["N"])
    key = "matrix"
    for precond in (False, True):
        rec.state(P.cfg_id(c), c["k"], c["numbering"], c["stab"], precond)
        ok, A = guarded(rec, f"{key}:raises", lambda: st.setup_spacetime_matrix(st.fes, precond=precond)[0])  # noqa: B023
        if not ok:
            return
        A = P.canon(st.fes, P.dense(A))
        want = ref.full(precond)
        compare(rec, f"{key}:precond={precond}", A, want, off, f"space-time matrix (precond={precond})", c)
        if not precond:
            asym = np.abs(A - A.T).max() / max(np.abs(A).max(), 1e-30)
            rec.step()
            if asym > 1e-10:
                rec.fail("symmetry", f"space-time matrix is not symmetric ({asym:.1e}); {P.cfg_id(c)}", cfg=c)
            rec.sample({"cfg": P.cfg_id(c), "dofs": len(A), "norm": float(np.abs(A).max()), "asymmetry": float(asym)})
