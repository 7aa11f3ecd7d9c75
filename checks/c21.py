"""C21: transfer between nested meshes, on every unit vector."""
import itertools

import configs
import numpy as np
import stprob as P
import twolevel as TL
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration and nested mesh pair within the bounds x every unit vector of the coarse space (prolongation, then "
        "restriction) and of the fine space (restriction), into outputs holding garbage; also after another coarse mesh had been prepared; a state is (configuration, vector), a "
        "transition one transfer compared with point evaluation of the same discrete function")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "simplex meshes, one uniform refinement"]


def configurations(tier):
    b = configs.Bag()
    for q, qs, N in itertools.product(range(4), range(3), (1, 2, 3)):
        if tier == "quick" and (q + 1) * N > 6:
            continue
        b.add(q=q, qs=qs, N=N, mesh=["interval", 1], numbering=("permuted", "interleaved", "blocked")[(q + N) % 3])
    for N, T, w in itertools.product((6, 9), (0.1, 40.0), (False, True)):
        b.add(q=0, qs=0, N=N, T=T, wp=w, mesh=["interval", 1])
    b.add(q=0, qs=0, N=36, T=9.0, wp=True, mesh=["interval", 1])
    for m, k, ks in itertools.product(TL.PAIRS, (1, 2, 3), (1, 2, 3)):
        if m[0] == "tet" and (max(k, ks) > 1 or tier == "quick" and k > 1):
            continue
        b.add(mesh=m, k=k, ks=ks, q=1, qs=0, N=1)
        if m[0] in ("interval", "irregular"):
            b.add(mesh=m, k=k, ks=ks, q=0, qs=1, N=2, wp=True)
    return b.out


def cases(tier, seed):
    return configs.chunk(configurations(tier), 4)


def run_case(case, rec):
    for c in case["cfgs"]:
        run_cfg(c, rec)


def prepare(c, coarse, fine):
    c2 = dict(c, omega="half" if coarse._fe.gdim == 1 and c["mesh"] != ["irregular", 3] else c["omega"])
    dom = P.dst.DataDomain(indicator_function=lambda x: 1.0 + 0.0 * x[0])
    pr = P.Problem(c2, msh=fine, omega=dom)
    TL.prepare_other(pr.st, c, ("none", "scaled", "refined")[(c["q"] + c["N"] + c["k"] + c["ks"]) % 3])
    pr.st.prepare_coarse_grid_correction(coarse)
    return pr


def run_cfg(c, rec):
    coarse, fine = TL.pair(c["mesh"])
    ok, pr = guarded(rec, "prepare:raises", prepare, c, coarse, fine)
    if not ok:
        return
    st = pr.st
    Pm, Rm = TL.transfer(c, coarse, fine)
    pc, pf = P.perm_of(st.fes_coarse), P.perm_of(st.fes)
    nc, nf = len(pc), len(pf)

    def to_dof(p, v):
        out = np.empty_like(v)
        out[p] = v
        return out
    for name, x in P.unit_probes(nc):
        xc, xf = P.vec(to_dof(pc, x)), P.vec(np.full(nf, 9.0))
        ok, _ = guarded(rec, "prolongation:raises", st.prolongation, xc, xf)
        if not ok:
            return
        rec.step()
        rec.state(P.cfg_id(c), "P", name)
        got = np.array(xf.array)[pf]
        s = np.abs(x).max()
        if not rec.expect(np.abs(got - Pm @ x).max() <= 1e-8 * s, "prolongation",
                          f"prolongated {name} is another function; {P.cfg_id(c)}", cfg=c, vec=name):
            return
        rec.expect(np.array_equal(xc.array[pc], x), "coarse-changed", f"prolongation changed the coarse vector; {P.cfg_id(c)}", cfg=c)
        back = P.vec(np.full(nc, -4.0))
        ok, _ = guarded(rec, "restriction:raises", st.restriction, back, xf)
        if not ok:
            return
        rec.step()
        if not rec.expect(np.abs(np.array(back.array)[pc] - x).max() <= 1e-8 * s, "roundtrip",
                          f"restricting the prolongated {name} does not return it; {P.cfg_id(c)}", cfg=c, vec=name):
            return
        rec.expect(np.array_equal(np.array(xf.array)[pf], got), "fine-changed", f"restriction changed the fine vector; {P.cfg_id(c)}", cfg=c)
    for name, x in P.unit_probes(nf):
        xc, xf = P.vec(np.full(nc, 3.0)), P.vec(to_dof(pf, x))
        ok, _ = guarded(rec, "restriction:raises", st.restriction, xc, xf)
        if not ok:
            return
        rec.step()
        rec.state(P.cfg_id(c), "R", name)
        if not rec.expect(np.abs(np.array(xc.array)[pc] - Rm @ x).max() <= 1e-8 * np.abs(x).max(), "restriction",
                          f"restriction of {name} is not its coarse nodal values; {P.cfg_id(c)}", cfg=c, vec=name):
            return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "coarse": nc, "fine": nf})
