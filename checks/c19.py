"""C19: reported errors against exactly integrated errors of the lifted slabwise solution."""
import itertools

import configs
import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every configuration within the bounds x a complete set of discrete solutions (zero, every time-node function of every slab for "
        "the value component, functions of the other components, dense and exactly represented ones), and every ordered pair of "
        "measurements; plus a scan over all slab numbers up to the bound with each time-node function of the first and last slab; "
        "a state is (configuration, discrete solution), a transition one reported number compared")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)",
               "the space-time error is compared up to the tabulated digits of the quadrature rule (relative 1e-4)",
               "at a slab boundary the time derivative may be taken from either side"]
KEYS = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")

SOLS = {
    "zero": (lambda t, x: 0.0 * x[0], lambda t, x: 0.0 * x[0], lambda t, X: 0 * X[..., 0], lambda t, X: 0 * X[..., 0]),
    "lin": (lambda t, x: (1.0 + 0.5 * t) * (0.5 - x[0]), lambda t, x: 0.5 * (0.5 - x[0]),
            lambda t, X: (1.0 + 0.5 * t) * (0.5 - X[..., 0]), lambda t, X: 0.5 * (0.5 - X[..., 0])),
    "cubic": (lambda t, x: (t**3 - 1.5 * t**2 + 0.25) * (1 + x[0]), lambda t, x: (3 * t**2 - 3 * t) * (1 + x[0]),
              lambda t, X: (t**3 - 1.5 * t**2 + 0.25) * (1 + X[..., 0]), lambda t, X: (3 * t**2 - 3 * t) * (1 + X[..., 0])),
}


def configurations(tier):
    b = configs.Bag()
    for q, qs, sol in itertools.product(range(4), (0, 1), SOLS):
        b.add(q=q, qs=qs, N=3, T=1.5, mesh=["irregular", 2], sol=sol)
        b.add(q=q, qs=qs, N=1, T=1.0, mesh=["irregular", 2], sol=sol, wp=True)
    for k, ks, sol in itertools.product((1, 2, 3), (1, 2), SOLS):
        b.add(q=2, qs=1, k=k, ks=ks, N=2, T=0.75, mesh=["irregular", 2], sol=sol, numbering="interleaved")
    for m in (["interval", 3], ["skew"], ["quad", 2, 1], ["tet", 1], ["hex", 2, 1, 1]):
        for sol in ("lin", "cubic"):
            b.add(mesh=m, q=1, qs=0, N=2, T=1.25, sol=sol)
    if tier != "quick":
        for q, qs, k, N, T, sol in itertools.product(range(4), (0, 2), (1, 2), (1, 2, 4, 5), (0.5, 2.0), SOLS):
            b.add(q=q, qs=qs, k=k, N=N, T=T, mesh=["irregular", 3], sol=sol)
    return b.out


def cases(tier, seed):
    out = configs.chunk(configurations(tier), 3)
    top = 30 if tier == "quick" else 120
    scan = [{"N": N, "T": T} for N in range(1, top + 1) for T in (0.5, 1.0, 0.7, 3.0)]
    return out + configs.chunk(scan, 10, "scan")


def run_case(case, rec):
    for c in case.get("cfgs", ()):
        run_cfg(c, rec)
    for s in case.get("scan", ()):
        scan(s, rec)


class Oracle:
    def __init__(self, c, msh, samples=105):
        from dolfinx import _fe
        self.c = c
        fe = msh._fe
        pts, w = _fe.quadrature(fe.cell, 2 * c["k"] + 4)
        self.X = fe.v0[:, None, :] + np.einsum("cij,qj->cqi", fe.J, pts)
        self.W = w[None, :] * fe.detJ[:, None]
        self.Tab = _fe.tabulate_ref(fe.cell, c["k"], pts)
        self.nodes = fe.nodes(c["k"])[0]
        self.q, self.N = c["q"], c["N"]
        self.dt = c["T"] / c["N"]
        self.ph = [[float(x) for x in p] for p in P.lagrange(self.q)]
        self.dph = [[float(x) for x in P.pdiff(p)] for p in P.lagrange(self.q)]
        self.samples = np.linspace(0, c["T"], samples)

    def norm(self, nodal, exact):
        f = np.einsum("qi,ci->cq", self.Tab, nodal[self.nodes]) - exact
        return float(np.sqrt(np.sum(self.W * f * f)))

    def at(self, U, n, t, deriv):
        """nodal values of the lifted solution (or its derivative) of slab n at time t."""
        tau = (t - n * self.dt) / self.dt
        if deriv:
            r = sum(P.peval(p, tau) * u for p, u in zip(self.dph, U[n])) / self.dt
        else:
            r = sum(P.peval(p, tau) * u for p, u in zip(self.ph, U[n]))
        r = r + 0.0 * U[n][0]
        if n > 0:
            s = 2 * tau - 1
            jump = U[n][0] - U[n - 1][self.q]
            # theta(s) = s (s - 1) / 2
            r = r - (jump * (s * (s - 1) / 2) if not deriv else jump * (s - 0.5) * 2 / self.dt)
        return r

    def errors(self, U, v, dv):
        X, T = self.X, self.c["T"]
        out = {"L2-u1-T": [self.norm(U[-1][self.q], v(T, X))] * 2}
        val, dlo, dhi = 0.0, 0.0, 0.0
        for t in self.samples:
            x = t / self.dt
            slabs = {min(max(int(np.floor(x + e)), 0), self.N - 1) for e in (-1e-7, 1e-7)}
            val = max(val, max(self.norm(self.at(U, n, t, False), v(t, X)) for n in slabs))
            ds = [self.norm(self.at(U, n, t, True), dv(t, X)) for n in slabs]
            dlo, dhi = max(dlo, min(ds)), max(dhi, max(ds))
        out["L-infty-L2-error-u"] = [val, val]
        out["L-infty-L2-error-ut"] = [dlo, dhi]
        g, w = np.polynomial.legendre.leggauss(8)
        tot = 0.0
        for n in range(self.N):
            for tau, om in zip((g + 1) / 2, w / 2):
                t = (n + tau) * self.dt
                tot += om * self.dt * self.norm(self.at(U, n, t, True), dv(t, X)) ** 2
        out["L2-L2-error-u_t"] = [np.sqrt(tot)] * 2
        return out


def vector(ref, U, others):
    comp, off = ref.layout(ref.N)
    b = np.zeros(off[-1])
    for n in range(ref.N):
        for j in range(ref.q + 1):
            i = comp[(0, n, j)]
            b[off[i]:off[i + 1]] = U[n][j]
    if others:
        i = comp[(1, 0, 0)]
        b[off[i]:] = others * np.cos(np.arange(off[-1] - off[i]))
    return b


class Layout:
    def __init__(self, c, msh):
        self.N, self.q, self.qs = c["N"], c["q"], c["qs"]
        self.S = type("S", (), {})()
        self.S.nV = len(msh._fe.nodes(c["k"])[1])
        self.S.nW = len(msh._fe.nodes(c["ks"])[1])
    layout = P.Ref.layout


def compare(rec, key, got, want, c, name):
    rec.step(4)
    size = max(0.0 if c["sol"] == "zero" else 1.0, float(name.split()[-1]) if "times" in name else 1.0)   # of what is measured
    for k in KEYS:
        if k not in got:
            rec.fail(f"{key}:missing", f"no error reported under {k!r}; {P.cfg_id(c)}", cfg=c)
            return False
        g = float(got[k])
        lo, hi = want[k]
        tol = 1e-4 if k == "L2-L2-error-u_t" else 1e-8
        scale = max(want[k][1] for k in KEYS) if k != "L2-u1-T" else hi
        if not (lo - tol * lo - 1e-9 * (size + scale) <= g <= hi + tol * hi + 1e-9 * (size + scale)) or g < 0:
            rec.fail(f"{key}:{k}", f"{k} = {g:.8g}, true error {lo:.8g}" + (f"..{hi:.8g}" if hi > lo else "")
                     + f" for {name}; {P.cfg_id(c)} sol={c['sol']}", cfg=c, solution=name)
            return False
    return True


def run_cfg(c, rec):
    v, dv, nv, ndv = SOLS[c["sol"]]
    msh = P.make_mesh(c["mesh"])
    pr = P.Problem(c, msh=msh, sol=(v, dv))
    st = pr.st
    lay = Layout(c, msh)
    orc = Oracle(c, msh)
    coords = msh._fe.nodes(c["k"])[1]
    n, q, N = lay.S.nV, c["q"], c["N"]
    zero = [[np.zeros(n) for _ in range(q + 1)] for _ in range(N)]
    cands = [("zero", zero, 0.0), ("other components", zero, 2.0)]
    shape = 0.5 + np.sin(1.0 + np.arange(n))
    for s in range(N):
        for j in range(q + 1):
            U = [[np.zeros(n) for _ in range(q + 1)] for _ in range(N)]
            U[s][j] = shape
            cands.append((f"slab {s} node {j}", U, 0.0))
    for i in range(min(n, 4)):
        U = [[np.eye(n)[i] * (1 + s - j) for j in range(q + 1)] for s in range(N)]
        cands.append((f"space node {i}", U, 0.5))
    U = [[np.cos(1.3 * np.arange(n) + 2 * s + j) for j in range(q + 1)] for s in range(N)]
    cands.append(("dense", U, 1.0))
    for s in (1e-12, 1e9):
        cands.append((f"dense times {s:g}", [[s * x for x in u] for u in U], 0.0))
    exact = [[nv((s + (j / q if q else 0.5)) * c["T"] / N, coords) for j in range(q + 1)] for s in range(N)]
    cands.append(("interpolant", exact, 0.0))
    tdeg = {"zero": 0, "lin": 1, "cubic": 3}[c["sol"]]
    first = {}
    for name, U, oth in cands:
        b = P.uncanon(st.fes, vector(lay, U, oth))
        vin = P.vec(b)
        ok, got = guarded(rec, "measure:raises", st.measured_errors, vin)
        if not ok:
            return
        first[name] = got
        rec.state(P.cfg_id(c), c["sol"], c["numbering"], name)
        rec.expect(np.array_equal(vin.array, b), "input-changed", f"measured vector changed; {P.cfg_id(c)}", cfg=c)
        want = orc.errors(U, nv, ndv)
        if not compare(rec, "errors", got, want, c, name):
            return
        if name == "interpolant" and tdeg <= q:
            rec.expect(max(abs(got[k]) for k in KEYS) < 1e-10, "exact", f"errors of an exactly represented solution do not vanish: {got}; "
                       f"{P.cfg_id(c)}", cfg=c)
    # repeated measurements in the other order do not influence each other
    for name, U, oth in reversed(cands):
        ok, got = guarded(rec, "measure:raises", st.measured_errors, P.vec(P.uncanon(st.fes, vector(lay, U, oth))), True)
        if not ok:
            return
        rec.step()
        rec.expect(all(abs(got[k] - first[name][k]) <= 1e-12 * (1 + abs(first[name][k])) for k in KEYS), "history",
                   f"errors of {name!r} depend on what was measured before; {P.cfg_id(c)}", cfg=c)
    rec.trace()
    rec.sample({"cfg": P.cfg_id(c), "sol": c["sol"], "reported": {k: float(first["dense"][k]) for k in KEYS}})


def scan(s, rec):
    for q in (0, 1) if s["N"] % 2 else (1, 2):
        c = P.default_cfg(q=q, qs=0, N=s["N"], T=s["T"], mesh=["interval", 1], sol="zero")
        v, dv, nv, ndv = SOLS["zero"]
        msh = P.make_mesh(c["mesh"])
        st = P.Problem(c, msh=msh, sol=(v, dv)).st
        lay, orc = Layout(c, msh), Oracle(c, msh)
        for sl, j in {(0, 0), (0, q), (s["N"] - 1, 0), (s["N"] - 1, q), (s["N"] // 2, q // 2)}:
            U = [[np.zeros(2) for _ in range(q + 1)] for _ in range(s["N"])]
            U[sl][j] = np.array([1.0, 0.5])
            ok, got = guarded(rec, "scan:raises", st.measured_errors, P.vec(P.uncanon(st.fes, vector(lay, U, 0.0))))
            if not ok:
                return
            rec.state("scan", s["N"], s["T"], q, sl, j)
            compare(rec, "scan", got, orc.errors(U, nv, ndv), c, f"slab {sl} node {j}")
        rec.trace()
