"""Space-time problems: real dxss objects on the DOLFINx stand-in, and the independent reference model."""
from __future__ import annotations

import copy
import functools
import json
from fractions import Fraction

import numpy as np
import paths

paths.use_standin()

import scipy.sparse as sp  # noqa: E402
import ufl  # noqa: E402
from dolfinx import _env, fem, mesh as dmesh  # noqa: E402
from mpi4py import MPI  # noqa: E402

import dxss.precomp_time_int as pti  # noqa: E402

_real_elmat = pti.get_elmat_time
_memo = {}


def _memo_elmat(*a, **k):
    """The real tables, computed once per process (C01 checks the real function on its own)."""
    key = json.dumps([a, sorted(k.items())])
    if key not in _memo:
        _memo[key] = _real_elmat(*a, **k)
    return copy.deepcopy(_memo[key])


pti.get_elmat_time = _memo_elmat
import dxss.space_time as dst  # noqa: E402

STAB = {"data": 7.25, "dual": 0.875, "primal": 0.0625, "primal-jump": 1.75}


# ------------------------------------------------------------------------------------------------ time: exact
def lagrange(q):
    """Exact coefficients (ascending) of the nodal basis at equispaced points of [0, 1]."""
    if q == 0:
        return [[Fraction(1)]]
    pts = [Fraction(i, q) for i in range(q + 1)]
    out = []
    for i, a in enumerate(pts):
        c = [Fraction(1)]
        for j, b in enumerate(pts):
            if j == i:
                continue
            d = [Fraction(0)] * (len(c) + 1)
            for m, v in enumerate(c):
                d[m + 1] += v / (a - b)
                d[m] -= v * b / (a - b)
            c = d
        out.append(c)
    return out


def pdiff(c):
    return [m * v for m, v in enumerate(c)][1:] or [Fraction(0)]


def pmul(a, b):
    out = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def pint01(c):
    return sum((v / (m + 1) for m, v in enumerate(c)), Fraction(0))


def peval(c, t):
    r = 0
    for v in reversed(c):
        r = r * t + v
    return r


@functools.lru_cache(None)
def time_exact(q, qs):
    ph, ch = lagrange(q), lagrange(qs)
    dph = [pdiff(c) for c in ph]

    def mat(rows, cols):
        return [[pint01(pmul(r, c)) for c in cols] for r in rows]
    return {"M_time_q_qstar": mat(ch, ph), "M_time_q_q": mat(ph, ph), "M_time_qstar_qstar": mat(ch, ch),
            "DM_time_q_qstar": mat(ch, dph), "DM_time_q_q": mat(ph, dph), "DDM_time_q_q": mat(dph, dph)}


def time_float(q, qs):
    return {k: np.array([[float(x) for x in r] for r in m]) for k, m in time_exact(q, qs).items()}


# ------------------------------------------------------------------------------------------------ meshes
def make_mesh(spec):
    """spec: ["interval", n] | ["irregular", n] | ["scaled", n, factor] | ["square", nx, ny] | ["quad", nx, ny] | ["tet", n] | ["hex", nx, ny, nz]
    | ["skew"] (a few unstructured triangles)."""
    kind, *a = spec
    c = MPI.COMM_SELF if False else MPI.COMM_WORLD
    if kind == "interval":
        return dmesh.create_unit_interval(c, a[0])
    if kind == "irregular":
        x = np.linspace(0, 1, a[0] + 1) ** 1.3
        return dmesh.Mesh(c, x[:, None], [(i, i + 1) for i in range(a[0])], "interval")
    if kind == "scaled":  # cells of another magnitude, away from the origin
        x = (np.linspace(0, 1, a[0] + 1) ** 1.2 - 0.7) * a[1]
        return dmesh.Mesh(c, x[:, None], [(i, i + 1) for i in range(a[0])], "interval")
    if kind == "square":
        return dmesh.create_unit_square(c, *a)
    if kind == "quad":
        return dmesh.create_unit_square(c, *a, dmesh.CellType.quadrilateral)
    if kind == "tet":
        return dmesh.create_unit_cube(c, a[0], a[0], a[0])
    if kind == "hex":
        return dmesh.create_unit_cube(c, *a, dmesh.CellType.hexahedron)
    if kind == "skew":
        x = [(0, 0), (1, 0), (1, 1), (0, 1), (0.4, 0.55)]
        return dmesh.Mesh(c, x, [(0, 1, 4), (2, 1, 4), (2, 3, 4), (4, 3, 0)], "triangle")
    raise ValueError(kind)


def refine_uniform(m):
    m.topology.create_entities(1)
    return dmesh.refine(m)


# ------------------------------------------------------------------------------------------------ problems
def default_cfg(**kw):
    c = {"mesh": ["interval", 2], "q": 1, "qs": 1, "k": 1, "ks": 1, "N": 2, "T": 1.0, "fw": False, "wp": False,
         "numbering": "permuted", "omega": "half", "sol": "poly", "stab": None}
    c.update(kw)
    return c


def cfg_id(c):
    return "-".join(str(c[k]).replace(" ", "") for k in ("mesh", "q", "qs", "k", "ks", "N", "T", "fw", "wp", "omega"))


def half_indicator(x):
    return 1.0 * (x[0] <= 0.5 + 1e-9)


def omega_of(c, msh):
    if c["omega"] == "half":          # fitted: indicator callable, resolved by the mesh
        return dst.DataDomain(indicator_function=half_indicator)
    if c["omega"] == "rough":         # fitted, not resolved: sampled once per cell
        return dst.DataDomain(indicator_function=lambda x: 1.0 * (x[0] <= 0.3) + 0.25 * (x[0] > 0.7))
    if c["omega"] == "unfitted":      # an expression, smooth (integrated exactly)
        x = ufl.SpatialCoordinate(msh)
        return dst.DataDomain(indicator_function=0.5 + x[0] * (2.0 if msh._fe.gdim == 1 else 1.0 - 0.5 * x[1]) / 4, fitted=False)
    if c["omega"] == "unfitted-cond":
        x = ufl.SpatialCoordinate(msh)
        return dst.DataDomain(indicator_function=ufl.conditional(ufl.le(x[0], 0.5), 1, 0), fitted=False)
    raise ValueError(c["omega"])


def omega_value(c, X):
    """Reference: weight at points X [..., gdim] (cells' interior) of the data domain."""
    x = X[..., 0]
    if c["omega"] in ("half", "unfitted-cond"):
        return 1.0 * (x <= 0.5 + 1e-9)
    if c["omega"] == "rough":
        return 1.0 * (x <= 0.3) + 0.25 * (x > 0.7)
    return 0.5 + x * (2.0 if X.shape[-1] == 1 else 1.0 - 0.5 * X[..., 1]) / 4


# exact solutions: (v, dvdt) as functions usable with UFL and with numbers
def sol_of(c):
    kind = c["sol"]
    if kind == "poly":     # polynomial of degree <= min(3, ...) in time, 1 in each space variable
        p = min(c["q"] + 1, 3)

        def v(t, x):
            return (0.5 + 1.5 * t - 0.75 * t**p) * (0.25 + x[0]) + 0.125 * t

        def dv(t, x):
            return (1.5 - 0.75 * p * t ** (p - 1)) * (0.25 + x[0]) + 0.125
    elif kind == "wave":
        def v(t, x):
            return ufl.cos(np.pi * t) * ufl.sin(np.pi * x[0])

        def dv(t, x):
            return -np.pi * ufl.sin(np.pi * t) * ufl.sin(np.pi * x[0])
    else:
        raise ValueError(kind)
    return v, dv


class Problem:
    """A dxss SpaceTime object together with its reference model."""

    def __init__(self, c, msh=None, omega=None, setup=True, sol=None):
        self.c = c
        _env.numbering = c["numbering"]
        self.msh = msh if msh is not None else make_mesh(c["mesh"])
        self.omega = omega if omega is not None else omega_of(c, self.msh)
        v, dv = sol or sol_of(c)
        self.v, self.dv = v, dv
        self.stab = dict(c["stab"] or STAB)
        self.st = dst.SpaceTime(
            dst.OrderTime(c["q"], c["qs"]), dst.OrderSpace(c["k"], c["ks"]), N=c["N"], T=c["T"], t=0, msh=self.msh,
            stabilisation_terms=dict(self.stab), omega=self.omega, solution=dst.ValueAndDerivative(v, dv),
            parameters=dst.ProblemParameters(jumps_in_fw_problem=c["fw"], well_posed=c["wp"]))
        if setup:
            self.st.setup_spacetime_finite_elements()
            if c["wp"]:
                self.set_initial()

    def set_initial(self, which=0):
        """Initial data of well-posed problems: interpolants of fixed polynomials."""
        u0, u1 = initial(which)
        self.st.u1_0.interpolate(u0)
        self.st.u2_0.interpolate(u1)

    def lu(self, mat):
        return LU(mat)

    def set_solvers(self):
        self.st.set_solver_slab(LU(self.st.get_slab_matrix()))
        self.st.set_solver_first_slab(LU(self.st.get_slab_matrix_first_slab()))

    def ready(self):
        self.st.prepare_precondition_gmres()
        self.set_solvers()
        return self


def initial(which=0):
    if which == 0:
        return (lambda x: 0.5 - 0.25 * x[0]), (lambda x: 1.0 + 0.5 * x[0])
    return (lambda x: 1.5 * x[0]), (lambda x: -0.5 + 0.125 * x[0])


class LU:
    """Exact slab solver (dense), with the solver interface of the library."""

    def __init__(self, mat):
        import scipy.linalg as sl
        a = mat if isinstance(mat, np.ndarray) else dense(mat)
        self.n = len(a)
        self.f = sl.lu_factor(a)
        self.calls = 0
        self.fault = None   # callable(call number) -> raises

    def solve(self, b, x):
        import scipy.linalg as sl
        self.calls += 1
        if self.fault is not None:
            self.fault(self.calls, b, x)
        x.array[:] = sl.lu_solve(self.f, np.array(b.array))


def dense(mat):
    i, j, v = mat.getValuesCSR()
    return sp.csr_matrix((v, j, i), shape=mat.getSize()).toarray()


def sparse(mat):
    i, j, v = mat.getValuesCSR()
    return sp.csr_matrix((v, j, i), shape=mat.getSize())


def vec(a):
    from petsc4py import PETSc
    return PETSc.Vec().createWithArray(np.array(a, dtype=float), comm=PETSc.COMM_SELF)


# ------------------------------------------------------------------------------------------------ reference model
class Spatial:
    """Scalar spatial matrices in canonical node numbering (assembled by the stand-in from one-term forms)."""

    def __init__(self, msh, k, ks, c):
        self.msh, self.k, self.ks = msh, k, ks
        saved = _env.numbering
        _env.numbering = "blocked"
        try:
            self.V = fem.FunctionSpace(msh, ("CG", k))
            self.W = fem.FunctionSpace(msh, ("CG", ks))
            self._build(c)
        finally:
            _env.numbering = saved

    def _m(self, form):
        from dolfinx import _eval
        return _eval.assemble(form).toarray()

    def _build(self, c):
        msh = self.msh
        md = {"quadrature_degree": 2 * max(self.k, self.ks) + 4}
        dx = ufl.Measure("dx", domain=msh, metadata=md)
        ds = ufl.Measure("ds", domain=msh, metadata=md)
        dS = ufl.Measure("dS", domain=msh, metadata=md)  # noqa: N806
        n, h = ufl.FacetNormal(msh), ufl.CellDiameter(msh)
        u, v = ufl.TrialFunction(self.V), ufl.TestFunction(self.V)
        z, y = ufl.TrialFunction(self.W), ufl.TestFunction(self.W)
        g = ufl.grad
        lap = lambda a: ufl.div(g(a))  # noqa: E731
        self.nV, self.nW = self.V.num_dofs, self.W.num_dofs
        self.M = self._m(u * v * dx)                                   # (V test, V trial)
        self.K = self._m(ufl.inner(g(u), g(v)) * dx)
        self.Mw = self._m(z * y * dx)
        self.Kw = self._m(ufl.inner(g(z), g(y)) * dx)
        self.Mwv = self._m(u * y * dx)                                 # (W test, V trial)
        self.Kwv = self._m(ufl.inner(g(u), g(y)) * dx)
        self.Nwv = self._m(ufl.inner(n, g(u)) * y * ds)
        self.Bw = self._m((1 / h) * z * y * ds)
        self.B = self._m((1 / h) * u * v * ds)
        inter, _ = msh._fe.facets()
        if inter:
            jmp = lambda a: ufl.dot(g(a)("+"), n("+")) + ufl.dot(g(a)("-"), n("-"))  # noqa: E731
            # the full jump of the gradient (vector), as a continuous function only jumps in normal direction
            d = msh._fe.gdim
            f = sum((g(u)("+")[i] - g(u)("-")[i]) * (g(v)("+")[i] - g(v)("-")[i]) for i in range(d))
            self.J = self._m((h("+") + h("-")) / 2 * f * dS)
            self.Jn = self._m((h("+") + h("-")) / 2 * jmp(u) * jmp(v) * dS)
        else:
            self.J = self.Jn = np.zeros((self.nV, self.nV))
        self.H = self._m(h**2 * u * v * dx)
        self.HL = self._m(h**2 * u * lap(v) * dx) if self.k > 1 or self._tensor() else np.zeros((self.nV, self.nV))   # test: Laplacian
        self.LL = self._m(h**2 * lap(u) * lap(v) * dx) if self.k > 1 or self._tensor() else np.zeros((self.nV, self.nV))
        # data mass: weight sampled per cell (fitted) or as is (unfitted)
        self.D = self._data_mass(c)

    def _tensor(self):
        return False if self.msh._fe.cell in ("interval", "triangle", "tetrahedron") else self.k > 1

    def weight(self, c, cells, X):
        """weight of the data term at physical points X of the given cells."""
        fe = self.msh._fe
        if c["omega"].startswith("unfitted"):
            return omega_value(c, X)
        mid = fe.v0 + np.einsum("cij,j->ci", fe.J, _mid(fe.cell))
        return np.broadcast_to(omega_value(c, mid)[cells][:, None], X.shape[:2])

    def quad(self, deg):
        from dolfinx import _fe
        fe = self.msh._fe
        P, W = _fe.quadrature(fe.cell, deg)
        cells = np.arange(len(fe.cells))
        X = fe.v0[:, None, :] + np.einsum("cij,qj->cqi", fe.J, P)
        return cells, P, X, W[None, :] * fe.detJ[:, None]

    def _data_mass(self, c):
        from dolfinx import _fe
        fe = self.msh._fe
        cells, P, X, w = self.quad(2 * self.k + 4)
        T = _fe.tabulate_ref(fe.cell, self.k, P)
        loc = np.einsum("cq,qi,qj->cij", w * self.weight(c, cells, X), T, T)
        nodes, _ = fe.nodes(self.k)
        out = np.zeros((self.nV, self.nV))
        for e, nd in enumerate(nodes):
            out[np.ix_(nd, nd)] += loc[e]
        return out

    def load(self, c, f, deg, weighted=True):
        """(weight * f, v) for all nodes; f(X) vectorised over points."""
        from dolfinx import _fe
        fe = self.msh._fe
        cells, P, X, w = self.quad(deg)
        T = _fe.tabulate_ref(fe.cell, self.k, P)
        ww = w * self.weight(c, cells, X) if weighted else w
        loc = np.einsum("cq,qi->ci", ww * f(X), T)
        out = np.zeros(self.nV)
        np.add.at(out, fe.nodes(self.k)[0].ravel(), loc.ravel())
        return out


def _mid(cell):
    from dolfinx import _fe
    return _fe.ref_vertices(cell).mean(axis=0)


class Ref:
    """Reference space-time system, blocks indexed by (field, slab, time node), canonical nodes inside."""

    def __init__(self, c, msh, stab=None):
        self.c = c
        self.S = Spatial(msh, c["k"], c["ks"], c)
        self.q, self.qs, self.N = c["q"], c["qs"], c["N"]
        self.dt = c["T"] / c["N"]
        self.lam = 5 * c["k"] ** 2
        s = dict(stab or c["stab"] or STAB)
        self.gd, self.gu, self.gp, self.gj = s["data"], s["dual"], s["primal"], s["primal-jump"]
        self.tm = time_float(self.q, self.qs)

    # index layout: component c -> slice
    def layout(self, N):
        sizes = []
        comp = {}
        for f, (order, n) in enumerate(((self.q, self.S.nV), (self.q, self.S.nV), (self.qs, self.S.nW), (self.qs, self.S.nW))):
            for s in range(N):
                for j in range(order + 1):
                    comp[(f, s, j)] = len(sizes)
                    sizes.append(n)
        off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
        return comp, off

    def _adder(self, N):
        comp, off = self.layout(N)
        A = np.zeros((off[-1], off[-1]))

        def add(test, trial, B):
            i, j = comp[test], comp[trial]
            A[off[i]:off[i + 1], off[j]:off[j + 1]] += B
        return A, add

    def slab_terms(self, add, s, parts=None):
        """All terms living on one slab (no jumps)."""
        S, t, dt = self.S, self.tm, self.dt
        U1, U2, Z1, Z2 = 0, 1, 2, 3
        qq, qs = range(self.q + 1), range(self.qs + 1)
        DM, M = t["DM_time_q_qstar"], t["M_time_q_qstar"]
        for k in qs:
            for j in qq:
                # (dt u2, y1) + (grad u1, grad y1) - <dn u1, y1> + (dt u1 - u2, y2)
                blocks = [(2, U2, DM[k, j] * S.Mwv), (2, U1, dt * M[k, j] * (S.Kwv - S.Nwv)),
                          (3, U1, DM[k, j] * S.Mwv), (3, U2, -dt * M[k, j] * S.Mwv)]
                for ft, fu, B in blocks:
                    add((ft, s, k), (fu, s, j), B)
                    add((fu, s, j), (ft, s, k), B.T)     # adjoint
        for k in qs:
            for j in qs:
                m = t["M_time_qstar_qstar"][k, j] * dt * self.gu
                add((Z1, s, k), (Z1, s, j), -m * (S.Mw + S.Kw + self.lam * S.Bw))
                add((Z2, s, k), (Z2, s, j), -m * S.Mw)
        Mq, Dq, DDq = t["M_time_q_q"], t["DM_time_q_q"], t["DDM_time_q_q"]
        gp = self.gp
        for k in qq:
            for j in qq:
                m, d, dT, dd = dt * Mq[k, j], Dq[k, j], Dq[j, k], DDq[k, j] / dt
                # Dq[k, j] = int phi_k phi_j'  : test undifferentiated, trial differentiated
                # (u2 - dt u1, w2 - dt w1) + h^2 (dt u2 - lap u1, dt w2 - lap w1) + boundary + gradient jumps
                add((0, s, k), (0, s, j), gp * (dd * S.M + m * (S.LL + self.lam * S.B + S.J)) + self.gd * m * S.D)
                add((1, s, k), (1, s, j), gp * (m * S.M + dd * S.H))
                # trial u2, test w1: -(u2, dt w1) - h^2 (dt u2, lap w1)
                add((0, s, k), (1, s, j), gp * (-dT * S.M - d * S.HL))
                # trial u1, test w2: -(dt u1, w2) - h^2 (lap u1, dt w2)
                add((1, s, k), (0, s, j), gp * (-d * S.M - dT * S.HL.T))

    def jump_blocks(self):
        S = self.S
        return self.gj * (S.M / self.dt + self.dt * S.K), self.gj * S.M / self.dt

    def full(self, precond=False, forward=None):
        """forward=False leaves out the coupling of the forward-jump terms (known finding C13)."""
        c = self.c
        A, add = self._adder(self.N)
        J1, J2 = self.jump_blocks()
        fw = c["fw"]
        for s in range(self.N):
            self.slab_terms(add, s)
            if s == 0:
                if c["wp"]:
                    add((0, 0, 0), (0, 0, 0), J1)
                    add((1, 0, 0), (1, 0, 0), J2)
                continue
            new, old = (s, 0), (s - 1, self.q)
            for f, J in ((0, J1), (1, J2)):
                add((f, *new), (f, *new), J)
                add((f, *new), (f, *old), -J)
                if not precond:
                    add((f, *old), (f, *new), -J)
                    add((f, *old), (f, *old), J)
            if fw and forward is not False:
                M, Mw = self.S.Mwv, self.S.Mw
                add((2, *new), (2, *new), -self.gu * self.dt * Mw)
                add((3, *new), (3, *new), -self.gu * self.dt * Mw)
                # [u2] y1 + [u1] y2 and the adjoint [w2] z1 + [w1] z2
                for dual, prim in ((2, 1), (3, 0)):
                    for node, sg in ((new, 1.0), (old, -1.0)):
                        add((dual, *new), (prim, *node), sg * M)
                        add((prim, *node), (dual, *new), sg * M.T)
        return A

    def slab(self, jumps=True):
        A, add = self._adder(1)
        self.slab_terms(add, 0)
        J1, J2 = self.jump_blocks()
        if jumps:
            add((0, 0, 0), (0, 0, 0), J1)
            add((1, 0, 0), (1, 0, 0), J2)
        return A

    def slab_block(self, A, s):
        """Diagonal block of slab s of a full matrix, in the layout of one slab."""
        idx = self.slab_index(s)
        return A[np.ix_(idx, idx)]

    def slab_index(self, s):
        comp, off = self.layout(self.N)
        comp1, _ = self.layout(1)
        order = sorted(comp1, key=lambda k: comp1[k])
        return np.concatenate([np.arange(off[comp[(f, s, j)]], off[comp[(f, s, j)] + 1]) for f, _z, j in order])

    def coupling(self):
        """[u1_old, u1_new, u2_old, u2_new] jump matrix."""
        J1, J2 = self.jump_blocks()
        n = self.S.nV
        A = np.zeros((4 * n, 4 * n))
        for f, J in ((0, J1), (1, J2)):
            o = 2 * f * n
            A[o:o + n, o:o + n] = J
            A[o + n:o + 2 * n, o + n:o + 2 * n] = J
            A[o:o + n, o + n:o + 2 * n] = A[o + n:o + 2 * n, o:o + n] = -J
        return A

    def boundary_mass(self):
        J1, J2 = self.jump_blocks()
        n = self.S.nV
        A = np.zeros((2 * n, 2 * n))
        A[:n, :n], A[n:, n:] = J1, J2
        return A

    def rhs(self, v, u0=None, degree_time=8, space_deg=None):
        """v(t, X) numeric, X [..., gdim]."""
        comp, off = self.layout(self.N)
        b = np.zeros(off[-1])
        g, w = np.polynomial.legendre.leggauss(degree_time)
        g, w = (g + 1) / 2, w / 2
        ph = [[float(x) for x in p] for p in lagrange(self.q)]
        deg = space_deg or 2 * self.S.k + 6
        for s in range(self.N):
            for tau, om in zip(g, w):
                t = (s + tau) * self.dt
                L = self.S.load(self.c, lambda X: v(t, X), deg)  # noqa: B023
                for k in range(self.q + 1):
                    i = comp[(0, s, k)]
                    b[off[i]:off[i + 1]] += self.gd * self.dt * om * peval(ph[k], tau) * L
        if self.c["wp"] and u0 is not None:
            J1, J2 = self.jump_blocks()
            i, j = comp[(0, 0, 0)], comp[(1, 0, 0)]
            b[off[i]:off[i + 1]] += J1 @ u0[0]
            b[off[j]:off[j + 1]] += J2 @ u0[1]
        return b


def perm_of(space):
    """canonical (component-major, node-minor) index -> dof of the stand-in space."""
    return np.concatenate([np.asarray(d) for _k, _dg, d in space.components])


def canon(space, A):
    p = perm_of(space)
    return A[np.ix_(p, p)] if A.ndim == 2 else A[p]


def uncanon(space, b):
    p = perm_of(space)
    out = np.zeros_like(b)
    out[p] = b
    return out


def relerr(A, B):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return float("inf")
    if not np.all(np.isfinite(A)):
        return float("inf")
    d = np.abs(A - B).max() if A.size else 0.0
    return float(d / max(1e-300, np.abs(B).max() if B.size else 1.0, 1e-30))


def blockwise_err(A, B, off):
    """Worst error of any block: relative to the size of that block of B (small blocks are not drowned by large ones),
    forgiving only rounding at the scale of the whole matrix."""
    worst, where = 0.0, None
    noise = 1e-13 * max(np.abs(B).max(), 1e-30)
    for i in range(len(off) - 1):
        for j in range(len(off) - 1):
            a, b = A[off[i]:off[i + 1], off[j]:off[j + 1]], B[off[i]:off[i + 1], off[j]:off[j + 1]]
            d = np.abs(a - b).max()
            if not np.isfinite(d):
                return float("inf"), (i, j)
            d = max(d - noise, 0.0)
            e = d / max(np.abs(b).max(), noise)
            if e > worst:
                worst, where = float(e), (i, j)
    return worst, where


# ------------------------------------------------------------------------------------------------ slab models with forward jumps
def slab_with_forward(ref, S):
    """Slab matrix of problems with forward jumps: jump of the later slab tested with the dual variables."""
    comp, off = ref.layout(1)

    def add(t, u, B):
        i, j = comp[t], comp[u]
        S[off[i]:off[i + 1], off[j]:off[j + 1]] += B
    M, Mw = ref.S.Mwv, ref.S.Mw
    add((2, 0, 0), (2, 0, 0), -ref.gu * ref.dt * Mw)
    add((3, 0, 0), (3, 0, 0), -ref.gu * ref.dt * Mw)
    add((2, 0, 0), (1, 0, 0), M)
    add((3, 0, 0), (0, 0, 0), M)
    return S


def march_matrix(ref):
    """The block lower-triangular matrix whose solution time marching computes (slab matrices on the diagonal)."""
    c = ref.c
    if not c["fw"]:
        return ref.full(precond=True)
    comp, off = ref.layout(ref.N)
    A = np.zeros((off[-1], off[-1]))
    later = slab_with_forward(ref, ref.slab())
    first = later if c["wp"] else ref.slab(jumps=False)
    J1, J2 = ref.jump_blocks()
    for s in range(ref.N):
        idx = ref.slab_index(s)
        A[np.ix_(idx, idx)] = later if s else first
        if s:
            def add(t, u, B):
                i, j = comp[t], comp[u]
                A[off[i]:off[i + 1], off[j]:off[j + 1]] += B
            add((0, s, 0), (0, s - 1, ref.q), -J1)
            add((1, s, 0), (1, s - 1, ref.q), -J2)
            add((2, s, 0), (1, s - 1, ref.q), -ref.S.Mwv)
            add((3, s, 0), (0, s - 1, ref.q), -ref.S.Mwv)
    return A


def unit_probes(n):
    """All unit vectors, zero, and a few dense combinations (the operators are linear; the combinations catch offsets)."""
    yield "zero", np.zeros(n)
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        yield f"e{i}", e
    i = np.arange(n)
    yield "ones", np.ones(n)
    yield "alt", np.where(i % 2 == 0, 1.0, -2.0)
    yield "ramp", np.cos(1.7 * i) * 3.0 + 0.25
    yield "large", 1e6 * np.sin(0.9 * i + 0.3)
    yield "huge", 1e12 * np.cos(1.1 * i + 0.3)
    yield "tiny", 1e-13 * np.cos(2.3 * i + 0.6)
    yield "mixed", np.where(i % 3 == 0, 1e-12, 1.0) * np.sin(0.7 * i + 0.2)
