"""Evaluates UFL forms on the stand-in meshes.

Every scalar UFL (sub)expression evaluates to a "polynomial" in the form arguments: a dict
(test_key, trial_key) -> coefficient (float or array [entities, points]); a key is (component, derivative, side).
"""
from __future__ import annotations

import itertools

import numpy as np
import scipy.sparse as sp
import ufl
from dolfinx import _env
from ufl.algorithms import estimate_total_polynomial_degree
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.classes import Grad

ONE = (None, None)

MATHF = {
    "Sqrt": np.sqrt, "Exp": np.exp, "Ln": np.log, "Cos": np.cos, "Sin": np.sin, "Tan": np.tan, "Cosh": np.cosh,
    "Sinh": np.sinh, "Tanh": np.tanh, "Acos": np.arccos, "Asin": np.arcsin, "Atan": np.arctan, "Abs": np.abs,
}
LINEAR = {"Sum", "Indexed", "ListTensor", "ComponentTensor", "IndexSum", "Argument", "Coefficient", "Function", "Grad",
          "PositiveRestricted", "NegativeRestricted", "SpatialCoordinate", "Zero", "Product", "Division", "Variable",
          "Trace", "Div", "Inner", "Dot", "Transposed", "Real", "Conj"}


class Unsupported(NotImplementedError):
    pass


def padd(a, b, s=1.0):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + s * v if k in out else (v if s == 1.0 else s * v)
    return out


def pmul(a, b):
    out = {}
    for (v1, u1), x in a.items():
        for (v2, u2), y in b.items():
            if (v1 and v2) or (u1 and u2):
                raise Unsupported("expression is not linear in an argument")
            k = (v1 or v2, u1 or u2)
            p = x * y
            out[k] = out[k] + p if k in out else p
    return out


def pconst(a):
    """Value of an argument-free polynomial."""
    for k in a:
        if k != ONE:
            raise Unsupported("nonlinear operation on an argument")
    return a.get(ONE, 0.0)


class Context:
    """Evaluation on one kind of integration entity (or at given points of given cells)."""

    def __init__(self, mesh, itype=None, degree=None, cells=None, X=None):
        self.mesh = mesh          # FEMesh
        self.itype = itype
        self.degree = degree
        if itype is not None:
            self.sides, self.w, self.normals = mesh.points(itype, degree)
        else:
            self.sides, self.w, self.normals = {"": (cells, X)}, None, {}
        self.vals = {}

    def table(self, side, k, deriv):
        if self.itype is not None:
            return self.mesh.table(self.itype, self.degree, side, k, deriv)
        key = ("t", side, k, deriv)
        if key not in self.vals:
            ci, X = self.sides[side]
            self.vals[key] = self.mesh.tabulate(ci, X, k, deriv)
        return self.vals[key]

    def side(self, side):
        if side in self.sides:
            return side
        if side == "" and "+" in self.sides:
            return None  # unrestricted on an interior facet
        if side in "+-" and "" in self.sides:
            raise ValueError("restricted expression outside an interior facet integral")
        raise KeyError(side)

    def xphys(self, i):
        s = "" if "" in self.sides else "+"
        key = ("x", i)
        if key not in self.vals:
            ci, X = self.sides[s]
            self.vals[key] = self.mesh.v0[ci][:, None, i] + np.einsum("cj,cqj->cq", self.mesh.J[ci][:, i, :], X)
        return self.vals[key]

    def coefficient(self, f, comp, deriv, side):
        key = ("f", id(f), comp, deriv, side)
        if key not in self.vals:
            V = f.function_space
            k, dg, dofs = V.component(comp)
            if V.mesh._fe is not self.mesh:
                raise ValueError("coefficient lives on another mesh")
            if not deriv or k > 0:
                cellnodes, _ = self.mesh.nodes(k, dg)
                ci, _X = self.sides[side]
                loc = f.x.array[dofs][cellnodes[ci]]
                self.vals[key] = np.einsum("cqi,ci->cq", self.table(side, k, deriv), loc)
            else:
                self.vals[key] = 0.0
        return self.vals[key]

    # -- evaluation ----------------------------------------------------------------------------------------
    def ev(self, e, comp=(), env=None, side="", deriv=()):
        env = env or {}
        name = type(e).__name__
        m = getattr(self, "ev_" + name, None)
        if m is not None:
            if deriv and name not in LINEAR and not e._ufl_is_terminal_:
                return self._via_ufl(e, comp, env, side, deriv)
            return m(e, comp, env, side, deriv)
        if name in MATHF:
            if deriv:
                return self._via_ufl(e, comp, env, side, deriv)
            return {ONE: MATHF[name](pconst(self.ev(e.ufl_operands[0], (), env, side)))}
        if isinstance(e, ufl.Argument):
            return self.ev_Argument(e, comp, env, side, deriv)
        if isinstance(e, ufl.Coefficient):
            return self.ev_Function(e, comp, env, side, deriv)
        low = apply_algebra_lowering(e)
        if type(low) is not type(e):
            return self.ev(low, comp, env, side, deriv)
        raise Unsupported(f"UFL node {name}")

    def _via_ufl(self, e, comp, env, side, deriv):
        g = e
        for _ in deriv:
            g = Grad(g)
        g = apply_derivatives(apply_algebra_lowering(g))
        if type(g) is Grad:
            raise Unsupported(f"derivative of {type(e).__name__}")
        return self.ev(g, tuple(comp) + tuple(deriv), env, side, ())

    def ev_Zero(self, e, comp, env, side, deriv):
        return {}

    def _num(self, e, comp, env, side, deriv):
        return {} if deriv else {ONE: float(e)}

    ev_IntValue = ev_FloatValue = ev_ScalarValue = _num

    def ev_Identity(self, e, comp, env, side, deriv):
        return {ONE: 1.0} if not deriv and comp[0] == comp[1] else {}

    def ev_Constant(self, e, comp, env, side, deriv):
        if deriv:
            return {}
        v = np.asarray(e.value, dtype=float)
        return {ONE: float(v[tuple(comp)] if comp else v)}

    def flat(self, e, comp):
        shape = e.ufl_shape
        return int(np.ravel_multi_index(tuple(comp), shape)) if shape else 0

    def ev_Argument(self, e, comp, env, side, deriv):
        s = self.side(side)
        if s is None:
            raise ValueError("argument must be restricted on interior facets")
        key = (self.flat(e, comp), tuple(sorted(deriv)), s)
        if e.ufl_function_space().component(key[0])[0] < len(deriv) and self.mesh.cell in ("interval", "triangle", "tetrahedron"):
            return {}
        return {((key, None) if e.number() == 0 else (None, key)): 1.0}

    def ev_Function(self, e, comp, env, side, deriv):
        s = self.side(side)
        if s is None:
            s = "+"  # continuous or deliberately one-sided; DOLFINx would refuse discontinuous ones
            raise ValueError("coefficient must be restricted on interior facets")
        return {ONE: self.coefficient(e, self.flat(e, comp), tuple(sorted(deriv)), s)}

    ev_Coefficient = ev_Function

    def ev_SpatialCoordinate(self, e, comp, env, side, deriv):
        if not deriv:
            return {ONE: self.xphys(comp[0])}
        return {ONE: 1.0} if deriv == (comp[0],) else {}

    def _percell(self, arr, side, deriv):
        if deriv:
            return {}
        s = self.side(side)
        if s is None:
            raise ValueError("cell quantity must be restricted on interior facets")
        return {ONE: arr[self.sides[s][0]][:, None]}

    def ev_CellDiameter(self, e, comp, env, side, deriv):
        return self._percell(self.mesh.h, side, deriv)

    def ev_CellVolume(self, e, comp, env, side, deriv):
        ref = {"interval": 1, "triangle": 0.5, "tetrahedron": 1 / 6}.get(self.mesh.cell, 1)
        return self._percell(self.mesh.detJ * ref, side, deriv)

    def ev_FacetNormal(self, e, comp, env, side, deriv):
        if deriv:
            return {}
        s = self.side(side)
        if s is None or s not in self.normals:
            raise ValueError("facet normal needs a facet (side)")
        return {ONE: self.normals[s][:, comp[0]][:, None]}

    def ev_Sum(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        return padd(self.ev(a, comp, env, side, deriv), self.ev(b, comp, env, side, deriv))

    def ev_Product(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        out = {}
        n = len(deriv)
        for r in range(n + 1):
            for S in itertools.combinations(range(n), r):
                da = tuple(deriv[i] for i in S)
                db = tuple(deriv[i] for i in range(n) if i not in S)
                pa = self.ev(a, (), env, side, da)
                if not pa:
                    continue
                pb = self.ev(b, (), env, side, db)
                out = padd(out, pmul(pa, pb))
        return out

    def ev_Division(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        if deriv:
            for i in set(deriv):
                d = self.ev(b, (), env, side, (i,))
                if any(np.any(np.asarray(v) != 0) for v in d.values()):
                    return self._via_ufl(e, comp, env, side, deriv)
        den = pconst(self.ev(b, (), env, side))
        return {k: v / den for k, v in self.ev(a, comp, env, side, deriv).items()}

    def ev_Power(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        base = pconst(self.ev(a, (), env, side))
        ex = pconst(self.ev(b, (), env, side))
        return {ONE: np.power(base, ex)}

    def ev_Grad(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[0], tuple(comp[:-1]), env, side, (comp[-1],) + tuple(deriv))

    def ev_Div(self, e, comp, env, side, deriv):
        out = {}
        for i in range(self.mesh.gdim):
            out = padd(out, self.ev(e.ufl_operands[0], tuple(comp) + (i,), env, side, (i,) + tuple(deriv)))
        return out

    def _contract(self, a, b, comps, env, side, deriv):
        out = {}
        n = len(deriv)
        for ca, cb in comps:
            for r in range(n + 1):
                for S in itertools.combinations(range(n), r):
                    da = tuple(deriv[i] for i in S)
                    db = tuple(deriv[i] for i in range(n) if i not in S)
                    pa = self.ev(a, ca, env, side, da)
                    if not pa:
                        continue
                    out = padd(out, pmul(pa, self.ev(b, cb, env, side, db)))
        return out

    def ev_Inner(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        idx = list(itertools.product(*[range(n) for n in a.ufl_shape]))
        return self._contract(a, b, [(i, i) for i in idx], env, side, deriv)

    def ev_Dot(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        if not a.ufl_shape or not b.ufl_shape:
            return self._contract(a, b, [(tuple(comp), ())] if a.ufl_shape else [((), tuple(comp))], env, side, deriv)
        na = len(a.ufl_shape) - 1
        return self._contract(a, b, [(tuple(comp[:na]) + (i,), (i,) + tuple(comp[na:])) for i in range(a.ufl_shape[-1])],
                              env, side, deriv)

    def ev_Outer(self, e, comp, env, side, deriv):
        a, b = e.ufl_operands
        na = len(a.ufl_shape)
        return self._contract(a, b, [(tuple(comp[:na]), tuple(comp[na:]))], env, side, deriv)

    def ev_Trace(self, e, comp, env, side, deriv):
        out = {}
        for i in range(e.ufl_operands[0].ufl_shape[0]):
            out = padd(out, self.ev(e.ufl_operands[0], (i, i), env, side, deriv))
        return out

    def ev_Transposed(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[0], (comp[1], comp[0]), env, side, deriv)

    def _restr(self, s):
        def f(self, e, comp, env, side, deriv):
            return self.ev(e.ufl_operands[0], comp, env, s, deriv)
        return f

    def ev_PositiveRestricted(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[0], comp, env, "+", deriv)

    def ev_NegativeRestricted(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[0], comp, env, "-", deriv)

    def _first(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[0], comp, env, side, deriv)

    ev_Variable = ev_Conj = ev_Real = _first

    def ev_Indexed(self, e, comp, env, side, deriv):
        a, mi = e.ufl_operands
        c = tuple(int(i) if isinstance(i, ufl.core.multiindex.FixedIndex) else env[i.count()] for i in mi)
        return self.ev(a, c, env, side, deriv)

    def ev_ListTensor(self, e, comp, env, side, deriv):
        return self.ev(e.ufl_operands[comp[0]], tuple(comp[1:]), env, side, deriv)

    def ev_ComponentTensor(self, e, comp, env, side, deriv):
        a, mi = e.ufl_operands
        env2 = dict(env)
        for i, c in zip(mi, comp):
            env2[i.count()] = c
        return self.ev(a, (), env2, side, deriv)

    def ev_IndexSum(self, e, comp, env, side, deriv):
        a, mi = e.ufl_operands
        (i,) = mi
        out = {}
        for c in range(e.dimension()):
            env2 = dict(env)
            env2[i.count()] = c
            out = padd(out, self.ev(a, comp, env2, side, deriv))
        return out

    # -- conditions ----------------------------------------------------------------------------------------
    def cond(self, e, env, side):
        n = type(e).__name__
        ops = e.ufl_operands
        if n == "AndCondition":
            return np.logical_and(self.cond(ops[0], env, side), self.cond(ops[1], env, side))
        if n == "OrCondition":
            return np.logical_or(self.cond(ops[0], env, side), self.cond(ops[1], env, side))
        if n == "NotCondition":
            return np.logical_not(self.cond(ops[0], env, side))
        f = {"LT": np.less, "LE": np.less_equal, "GT": np.greater, "GE": np.greater_equal, "EQ": np.equal,
             "NE": np.not_equal}[n]
        return f(pconst(self.ev(ops[0], (), env, side)), pconst(self.ev(ops[1], (), env, side)))

    def ev_Conditional(self, e, comp, env, side, deriv):
        c, t, f = e.ufl_operands
        m = self.cond(c, env, side)
        pt, pf = self.ev(t, comp, env, side), self.ev(f, comp, env, side)
        out = {}
        for k in set(pt) | set(pf):
            out[k] = np.where(m, pt.get(k, 0.0), pf.get(k, 0.0))
        return out

    def _minmax(self, f, e, env, side):
        a, b = (pconst(self.ev(o, (), env, side)) for o in e.ufl_operands)
        return {ONE: f(a, b)}

    def ev_MinValue(self, e, comp, env, side, deriv):
        return self._minmax(np.minimum, e, env, side)

    def ev_MaxValue(self, e, comp, env, side, deriv):
        return self._minmax(np.maximum, e, env, side)


def _measure_degree(itg, maxdeg):
    md = itg.metadata() or {}
    d = md.get("quadrature_degree")
    if isinstance(d, (int, np.integer)) and d >= 0:
        return int(d)
    try:
        d = estimate_total_polynomial_degree(apply_derivatives(apply_algebra_lowering(itg.integrand())))
    except Exception:  # noqa: BLE001
        d = 2 * maxdeg + 2
    return int(max(d if np.isscalar(d) else max(d), 0))


def accumulate(form, mesh):
    """-> list of (itype, degree, {(vkey,ukey): coef})."""
    acc = {}
    args = form.arguments()
    maxdeg = max([c[0] for a in args for c in a.ufl_function_space().components] + [1])
    ctxs = {}
    for itg in form.integrals():
        itype = itg.integral_type()
        if itype not in ("cell", "exterior_facet", "interior_facet"):
            raise Unsupported(itype)
        if itg.subdomain_id() not in ("everywhere", "otherwise"):
            raise Unsupported("subdomains")
        md = itg.metadata() or {}
        degree = md.get("quadrature_degree")
        if not isinstance(degree, (int, np.integer)):
            degree = 2 * maxdeg + 2 if args else _measure_degree(itg, maxdeg)
        degree = int(degree)
        key = (itype, degree)
        if key not in ctxs:
            ctxs[key] = Context(mesh, itype, degree)
            acc[key] = {}
        pol = ctxs[key].ev(itg.integrand())
        tgt = acc[key]
        for k, v in pol.items():
            tgt[k] = tgt[k] + v if k in tgt else v
    return acc


def form_mesh(form):
    m = {id(d.ufl_cargo()): d.ufl_cargo() for d in form.ufl_domains()}
    if len(m) != 1:
        raise ValueError("form must live on exactly one mesh")
    return next(iter(m.values()))._fe


def check_arity(form):
    """What UFL itself raises when DOLFINx compiles a form that is not linear in its arguments."""
    from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
    from ufl.algorithms.check_arities import check_form_arity
    check_form_arity(apply_algebra_lowering(form), form.arguments())


def assemble(form):
    try:
        return assemble_checked(form)
    except Unsupported:
        check_arity(form)
        raise


def assemble_checked(form):
    mesh = form_mesh(form)
    args = form.arguments()
    acc = accumulate(form, mesh)
    rank = len(args)
    if rank == 0 and _env.owned is not None:
        if any(k[0] != "cell" for k in acc):
            raise Unsupported("facet integrals of a distributed functional")
        own = _env.owned
        return float(sum(np.sum((mesh.points(*k)[1] * pol[ONE])[own]) for k, pol in acc.items() if ONE in pol))
    if rank == 0:
        return float(sum(np.sum(mesh.points(*k)[1] * pol[ONE]) for k, pol in acc.items() if ONE in pol))
    V = args[0].ufl_function_space()
    U = args[1].ufl_function_space() if rank == 2 else None
    vec = np.zeros(V.num_dofs)
    rows, cols, vals = [], [], []
    cache = {}
    for (itype, degree), pol in acc.items():
        sides, w, _ = mesh.points(itype, degree)
        for (vk, uk), coef in pol.items():
            if vk is None or (rank == 2 and uk is None):
                raise Unsupported("form is not multilinear in its arguments")
            kv, dgv, dv = V.component(vk[0])
            cv, _x = mesh.nodes(kv, dgv)
            rv = dv[cv[sides[vk[2]][0]]]
            const = np.ndim(coef) == 0
            if rank == 1:
                wc = w * coef
                loc = np.einsum("nq,nqi->ni", wc, mesh.table(itype, degree, vk[2], kv, vk[1]))
                np.add.at(vec, rv.ravel(), loc.ravel())
                continue
            ku, dgu, du = U.component(uk[0])
            cu, _x = mesh.nodes(ku, dgu)
            ru = du[cu[sides[uk[2]][0]]]
            ek = (itype, degree, kv, vk[1:], ku, uk[1:])
            if const:
                if ek not in cache:
                    cache[ek] = np.einsum("nq,nqi,nqj->nij", w, mesh.table(itype, degree, vk[2], kv, vk[1]),
                                          mesh.table(itype, degree, uk[2], ku, uk[1]), optimize=True)
                loc = coef * cache[ek]
            else:
                loc = np.einsum("nq,nqi,nqj->nij", w * coef, mesh.table(itype, degree, vk[2], kv, vk[1]),
                                mesh.table(itype, degree, uk[2], ku, uk[1]), optimize=True)
            rows.append(np.broadcast_to(rv[:, :, None], loc.shape).ravel())
            cols.append(np.broadcast_to(ru[:, None, :], loc.shape).ravel())
            vals.append(loc.ravel())
    if rank == 1:
        return vec
    cat = (lambda a: np.concatenate(a)) if rows else (lambda a: np.zeros(0, dtype=int))
    A = sp.coo_matrix((cat(vals), (cat(rows), cat(cols))), shape=(V.num_dofs, U.num_dofs)).tocsr()
    A.sum_duplicates()
    return A


def eval_at(expr, mesh, cells, X):
    """Values of a (scalar) UFL expression at reference points X [n,nq,d] of the given cells."""
    ctx = Context(mesh, cells=np.asarray(cells), X=np.asarray(X))
    expr = ufl.as_ufl(expr)
    v = pconst(ctx.ev(expr))
    return np.broadcast_to(np.asarray(v, dtype=float), X.shape[:2])
