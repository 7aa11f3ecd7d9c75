"""C20: plotted arrays and exported fields show the given discrete solution."""
import itertools
import json
import os
import shutil
import tempfile

import configs
import matplotlib
import matplotlib.axes
import matplotlib.pyplot as plt
import numpy as np
import stprob as P
from runner import guarded

matplotlib.use("Agg")
LEVEL = "model_checking"
RULE = ("every configuration within the bounds x every time-node function of every slab and dense solutions x all sampling "
        "parameters and both plotting modes, each preceded by other outputs; a state is (configuration, output, solution), a "
        "transition one array compared")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "matplotlib is observed at Axes.pcolormesh (Agg backend)",
               "exported files are those the stand-in's XDMF writer was asked to write"]

calls = []
_orig = matplotlib.axes.Axes.pcolormesh


def _record(self, *args, **kw):
    if self.get_label() != "<colorbar>" and not (args and np.shape(args[-1])[-1:] == (1,)):
        a = [np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) for x in args[:3]]
        if len(a) == 3:
            calls.append(a)
    return _orig(self, *args, **kw)


matplotlib.axes.Axes.pcolormesh = _record

SOL = (lambda t, x: (1.0 + t - 0.5 * t**2) * (0.3 + x[0] * (1.5 - x[0])), lambda t, x: (1.0 - t) * (0.3 + x[0] * (1.5 - x[0])))
SOL2 = (lambda t, x: (2.0 - 3 * t) * (x[0] - 0.4), lambda t, x: -3.0 * (x[0] - 0.4))


def configurations(tier):
    b = configs.Bag()
    for q, k, N, wp in itertools.product(range(4), (1, 2, 3), (1, 2, 3), (False, True)):
        if wp and (q + k + N) % 2 and tier == "quick":
            continue
        b.add(q=q, qs=(q + N) % 3, k=k, ks=1 if wp else k, N=N, T=1.0 if N == 1 else 0.75, wp=wp,
              mesh=["irregular", 3], numbering=("permuted", "interleaved", "blocked")[(q + k) % 3])
    for (N, T), wp in itertools.product(((8, 4.0), (36, 9.0), (2, 1e-3), (2, 50.0), (5, 20.0)), (False, True)):
        b.add(q=1, qs=0, N=N, T=T, wp=wp, mesh=["interval", 2])
    for m in (["square", 1, 1], ["skew"], ["quad", 2, 1], ["tet", 1], ["hex", 2, 1, 1]):
        b.add(mesh=m, q=1, qs=0, N=2, k=1, wp=True)
        b.add(mesh=m, q=2, qs=0, N=1, k=2, ks=1)
    return b.out


def cases(tier, seed):
    return configs.chunk(configurations(tier), 4)


def run_case(case, rec):
    for i, c in enumerate(case["cfgs"]):
        run_cfg(c, rec, SOL if i % 2 == 0 else SOL2)


def run_cfg(c, rec, sol):
    msh = P.make_mesh(c["mesh"])
    pr = P.Problem(c, msh=msh, sol=sol)
    st = pr.st
    fe = msh._fe
    nV, nW = len(fe.nodes(c["k"])[1]), len(fe.nodes(c["ks"])[1])
    q, N = c["q"], c["N"]
    off1 = nV * (q + 1) * N
    total = 2 * off1 + 2 * nW * (c["qs"] + 1) * N
    sols = []
    for s, j in itertools.product(range(N), range(q + 1)):
        b = np.zeros(total)
        o = (s * (q + 1) + j) * nV
        b[o:o + nV] = 1.0 + np.arange(nV)
        b[off1 + o:off1 + o + nV] = -2.0 + 0.5 * np.arange(nV)
        sols.append((f"slab {s} node {j}", b))
    sols.append(("dense", np.cos(0.7 * np.arange(total)) - 0.2))
    sols.append(("tiny", 1e-9 * (np.cos(0.3 * np.arange(total)) - 0.2)))
    sols.append(("huge", 1e9 * (np.cos(0.9 * np.arange(total)) - 0.2)))
    i = np.arange(total)
    sols.append(("positive", 2.0 + np.sin(i)))
    params = [{}, {"n_space": 7, "n_time_subdiv": 3}, {"n_space": 12, "n_time_subdiv": 1}]
    for m, (name, b) in enumerate(sols):
        x = P.uncanon(st.fes, b)
        if fe.gdim == 1:
            for par in (params if name in ("dense", "positive") else params[1:2]):
                for mode in ("plot", "abs", "error"):
                    if not check_plot(c, rec, st, name, b, x, par, mode, sol, fe, nV):
                        return
        if not check_export(c, rec, st, name, b, x, "abserr" if m == 0 else f"res{m}", sol, nV, off1):
            return
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "solutions": len(sols)})


def space_values(fe, k, nodal, xs):
    """nodal values at points xs of a one-dimensional function (independent of the stand-in's evaluation)."""
    nodes, coords = fe.nodes(k)
    out = np.zeros(len(xs))
    for i, p in enumerate(xs):
        for nd in nodes:
            z = coords[nd, 0]
            if z.min() - 1e-12 <= p <= z.max() + 1e-12:
                val = 0.0
                for a in range(len(nd)):
                    L = 1.0
                    for d in range(len(nd)):
                        if d != a:
                            L *= (p - z[d]) / (z[a] - z[d])
                    val += L * nodal[nd[a]]
                out[i] = val
                break
    return out


def check_plot(c, rec, st, name, b, x, par, mode, sol, fe, nV):
    calls.clear()
    plt.close("all")
    vin = P.vec(x)
    if mode == "error":
        ok, _ = guarded(rec, "plot_error:raises", st.plot_error, vin, **par)
    else:
        kw = dict(par, abs_val=True) if mode == "abs" else par
        ok, _ = guarded(rec, "plot:raises", st.plot, vin, **kw)
    plt.close("all")
    if not ok:
        return False
    got = [list(a) for a in calls]
    ns, nt = par.get("n_space", 100), par.get("n_time_subdiv", 10)
    q, N = c["q"], c["N"]
    dt = c["T"] / N
    xs = np.linspace(0, 1, ns)
    ph, dph = P.lagrange(q), [P.pdiff(p) for p in P.lagrange(q)]
    ts, F, DF = [], [], []
    for s in range(N):
        vals = [space_values(fe, c["k"], b[(s * (q + 1) + j) * nV:(s * (q + 1) + j + 1) * nV], xs) for j in range(q + 1)]
        for m in range(nt):
            tau = m / nt
            ts.append((s + tau) * dt)
            F.append(sum(float(P.peval(p, tau)) * v for p, v in zip(ph, vals)))
            DF.append(sum(float(P.peval(p, tau)) * v for p, v in zip(dph, vals)) / dt)
    ts, F, DF = np.array(ts), np.array(F), np.array(DF)
    if mode == "error":
        E = np.abs(F - np.array([[sol[0](t, [p]) for p in xs] for t in ts]))
        DE = np.abs(DF - np.array([[sol[1](t, [p]) for p in xs] for t in ts]))
        want = [("derivative", DF), ("error", E), ("derivative error", DE)]
    elif mode == "abs":
        want = [("absolute value", np.abs(F)), ("absolute derivative", np.abs(DF))]
    else:
        want = [("value", F), ("derivative", DF)]
    if len(got) != len(want):
        rec.fail(f"{mode}:number", f"{mode} draws {len(got)} arrays instead of {len(want)}; {P.cfg_id(c)}", cfg=c)
        return False
    for (X, Y, C), (what, W) in zip(got, want):
        rec.step()
        rec.state(P.cfg_id(c), mode, str(par), name, what)
        if C.shape != W.shape or X.shape != (ns,) or Y.shape != (len(ts),):
            rec.fail(f"{mode}:shape", f"{mode}: array of {what} has shape {C.shape}, axes {X.shape} {Y.shape}; {P.cfg_id(c)}", cfg=c)
            return False
        if np.abs(X - xs).max() > 1e-9 or np.abs(Y - ts).max() > 1e-9:
            rec.fail(f"{mode}:axes", f"{mode}: points or times on the axes of {what} are wrong; {P.cfg_id(c)}", cfg=c)
            return False
        d = np.abs(C - W)
        if not d.max() <= 1e-8 * ((mode == "error") + np.abs(W).max()) + 1e-12 * np.abs(b).max() / min(dt, 1):
            i, j = np.unravel_index(int(np.argmax(np.nan_to_num(d, nan=np.inf))), d.shape)
            rec.fail(f"{mode}:{what}", f"{mode}: {what} at t={ts[i]:.4g}, x={xs[j]:.4g} shown as {C[i, j]:.6g} instead of {W[i, j]:.6g} "
                     f"for {name}; {P.cfg_id(c)}", cfg=c)
            return False
    return rec.expect(np.array_equal(vin.array, x), "input-changed", f"plotted vector changed; {P.cfg_id(c)}", cfg=c)


def check_export(c, rec, st, name, b, x, stem, sol, nV, off1):
    d = tempfile.mkdtemp(prefix="verif-c20-")
    old = os.getcwd()
    try:
        os.chdir(d)
        vin = P.vec(x)
        args = (vin,) if stem == "abserr" else (vin, stem)
        ok, _ = guarded(rec, "export:raises", st.plot_para_view, *args)
        if not ok:
            return False
        files = {}
        for part in ("u", "ut"):
            p = f"{stem}-{part}.xdmf"
            if not os.path.exists(p):
                rec.fail("export:file", f"no file {p} written (found {os.listdir('.')})", cfg=c)
                return False
            files[part] = json.loads(open(p).read())
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    q, N, T = c["q"], c["N"], c["T"]
    last = (N * (q + 1) - 1) * nV
    coords = st.msh._fe.nodes(c["k"])[1]
    order = {tuple(np.round(p, 9)): i for i, p in enumerate(coords)}
    for part, o, fun in (("u", 0, sol[0]), ("ut", off1, sol[1])):
        rec.step()
        rec.state(P.cfg_id(c), "export", part, name)
        fs = files[part]["functions"]
        if [f["name"] for f in fs] != [f"{part}-abserr"]:
            rec.fail("export:name", f"fields in {stem}-{part}.xdmf are {[f['name'] for f in fs]}", cfg=c)
            return False
        want = np.abs(b[o + last:o + last + nV] - np.array([fun(T, list(p)) for p in coords]))
        got = np.empty(nV)
        pts = np.array(fs[0]["points"])[:, :coords.shape[1]]
        if len(pts) != nV:
            rec.fail("export:size", f"exported field has {len(pts)} values instead of {nV}", cfg=c)
            return False
        for p, val in zip(pts, fs[0]["values"]):
            got[order[tuple(np.round(p, 9))]] = val
        if not np.abs(got - want).max() <= 1e-8 * (1 + want.max()):
            rec.fail(f"export:{part}", f"exported {part} error field differs from the nodal absolute error at the final time by "
                     f"{np.abs(got - want).max():.2e} for {name}; {P.cfg_id(c)}", cfg=c)
            return False
    return rec.expect(np.array_equal(vin.array, x), "input-changed", f"exported vector changed; {P.cfg_id(c)}", cfg=c)
