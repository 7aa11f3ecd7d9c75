"""Stand-in for dolfinx.fem (real, serial, Lagrange/DG)."""
from __future__ import annotations

import numpy as np
import ufl

from dolfinx import _env, _eval, _fe

__all__ = ["FunctionSpace", "functionspace", "VectorFunctionSpace", "Function", "Constant", "Expression", "form", "Form",
           "assemble_scalar", "assemble_vector", "assemble_matrix", "petsc"]


def _perm(n, seed):
    return np.random.default_rng(1000003 * seed + n).permutation(n)


def _flatten(el):
    """List of scalar component elements of a UFL element."""
    if isinstance(el, (ufl.MixedElement,)):  # VectorElement is a MixedElement
        return [c for s in el.sub_elements() for c in _flatten(s)]
    return [el]


def _scalar_info(el):
    fam = el.family()
    k = el.degree()
    if fam in ("Lagrange", "CG", "Q"):
        if k < 1:
            raise RuntimeError("Lagrange element needs degree >= 1")
        return k, False
    if fam in ("Discontinuous Lagrange", "DG", "DQ"):
        return k, True
    raise NotImplementedError(fam)


class _Dofmap:
    def __init__(self, V):
        self._V = V

    @property
    def index_map(self):
        class M:
            size_local = self._V.num_dofs
            size_global = self._V.num_dofs
            num_ghosts = 0
            local_range = (0, self._V.num_dofs)
        return M()

    index_map_bs = bs = 1


class _ElementView:
    def __init__(self, V):
        self._V = V

    def interpolation_points(self):
        k, _ = _scalar_info(_flatten(self._V.ufl_element())[0])
        return _fe.lattice(self._V.mesh._fe.cell, k).copy()

    @property
    def space_dimension(self):
        m = self._V.mesh._fe
        return sum(len(_fe.lattice(m.cell, k)) for k, _d, _x in self._V.components)


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, _parent=None, _components=None, _num=None):
        if isinstance(element, (tuple, list)):
            fam, deg = element[0], element[1]
            element = (ufl.FiniteElement(fam, mesh.ufl_cell(), deg) if len(element) < 3 else
                       ufl.VectorElement(fam, mesh.ufl_cell(), deg, dim=element[2][0]))
        super().__init__(mesh.ufl_domain(), element)
        self._mesh = mesh
        self._parent = _parent
        if _components is None:
            infos = [_scalar_info(e) for e in _flatten(element)]
            nn = [len(mesh._fe.nodes(k, dg)[1]) for k, dg in infos]
            total = int(sum(nn))
            start = np.concatenate([[0], np.cumsum(nn)])
            comps = []
            order = None
            if _env.numbering == "permuted":
                order = _perm(total, 7)
            elif _env.numbering == "interleaved":
                # node-major: sort (node index, component)
                lab = [(i, c) for c, n in enumerate(nn) for i in range(n)]
                rank = sorted(range(total), key=lambda t: lab[t])
                order = np.empty(total, dtype=int)
                order[rank] = np.arange(total)
            for c, (k, dg) in enumerate(infos):
                idx = np.arange(start[c], start[c + 1])
                comps.append((k, dg, idx if order is None else order[idx]))
            self.components = comps
            self.num_dofs = total
        else:
            self.components = _components
            self.num_dofs = _num
        self.dofmap = _Dofmap(self)

    # scalar component -> (degree, discontinuous, dof index of every canonical node)
    def component(self, c):
        return self.components[c]

    @property
    def mesh(self):
        return self._mesh

    @property
    def element(self):
        return _ElementView(self)

    @property
    def num_sub_spaces(self):
        el = self.ufl_element()
        return el.num_sub_elements() if isinstance(el, ufl.MixedElement) else 0

    def sub(self, i):
        el = self.ufl_element()
        if not isinstance(el, ufl.MixedElement):
            raise RuntimeError("scalar space has no subspaces")
        subs = el.sub_elements()
        if not 0 <= i < len(subs):
            raise IndexError(f"no subspace {i} (space has {len(subs)})")
        sizes = [len(_flatten(s)) for s in subs]
        a = sum(sizes[:i])
        return FunctionSpace(self._mesh, subs[i], _parent=self, _components=self.components[a:a + sizes[i]], _num=self.num_dofs)

    def collapse(self):
        if self._parent is None:
            raise RuntimeError("Cannot collapse a function space that is not a subspace")
        W = FunctionSpace(self._mesh, self.ufl_element())
        m = np.empty(W.num_dofs, dtype=np.int32)
        for (_k, _d, own), (_k2, _d2, par) in zip(W.components, self.components):
            m[own] = par
        return W, m

    def tabulate_dof_coordinates(self):
        out = np.zeros((self.num_dofs, 3))
        for k, dg, dofs in self.components:
            xy = self._mesh._fe.nodes(k, dg)[1]
            out[dofs, : xy.shape[1]] = xy
        return out

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __hash__(self):
        return id(self)

    def clone(self):
        return FunctionSpace(self._mesh, self.ufl_element())


def functionspace(mesh, element):
    return FunctionSpace(mesh, element)


def VectorFunctionSpace(mesh, element, dim=None):  # noqa: N802
    return FunctionSpace(mesh, (*element[:2], (dim or mesh._fe.gdim,)))


class _Vector:
    def __init__(self, n):
        self.array = np.zeros(n)

    def scatter_forward(self):
        pass

    def scatter_reverse(self, *_a):
        pass


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None):
        super().__init__(V)
        self._x = x if x is not None else _Vector(V.num_dofs)
        self.name = name or f"f_{self.count()}"
        self._petsc = None

    @property
    def function_space(self):
        return self.ufl_function_space()

    @property
    def x(self):
        return self._x

    @property
    def vector(self):
        if self._petsc is None:
            from petsc4py import PETSc
            self._petsc = PETSc.Vec().createWithArray(self._x.array, comm=PETSc.COMM_SELF)
        return self._petsc

    def sub(self, i):
        return Function(self.function_space.sub(i), self._x, f"{self.name}_{i}")

    def split(self):
        n = self.function_space.num_sub_spaces
        if n <= 0:
            raise RuntimeError("No subspaces to extract")
        return tuple(self.sub(i) for i in range(n))

    def collapse(self):
        V, m = self.function_space.collapse()
        f = Function(V)
        f.x.array[:] = self._x.array[m]
        return f

    def copy(self):
        f = Function(self.function_space)
        f.x.array[:] = self._x.array
        return f

    def _set(self, c, values):
        self._x.array[self.function_space.component(c)[2]] = values

    def interpolate(self, u, cells=None):
        V = self.function_space
        fe = V.mesh._fe
        if isinstance(u, Expression):
            if len(V.components) != 1:
                raise NotImplementedError("Expression into a vector space")
            k, dg, dofs = V.component(0)
            cellnodes, coords = fe.nodes(k, dg)
            L = _fe.lattice(fe.cell, k)
            if u.X.shape != L.shape or not np.allclose(u.X, L):
                raise RuntimeError("Function element interpolation points and Expression points do not match")
            nc = len(fe.cells)
            vals = _eval.eval_at(u.ufl_expression, fe, np.arange(nc), np.broadcast_to(L, (nc,) + L.shape))
            out = np.zeros(len(coords))
            out[cellnodes] = vals
            self._set(0, out)
            return
        if isinstance(u, Function):
            W = u.function_space
            if len(W.components) != len(V.components):
                raise RuntimeError("incompatible function spaces")
            for c in range(len(V.components)):
                k, dg, dofs = V.component(c)
                kw, dgw, dofw = W.component(c)
                src = u.x.array[dofw]
                if W.mesh is V.mesh and (k, dg) == (kw, dgw):
                    self._set(c, src.copy())
                    continue
                _cn, coords = fe.nodes(k, dg)
                self._set(c, _eval_nodal(W.mesh._fe, kw, dgw, src, coords))
            return
        if isinstance(u, ufl.core.expr.Expr) or not callable(u):
            raise TypeError("interpolate needs a callable, a Function or an Expression")
        for_coords = [fe.nodes(k, dg)[1] for k, dg, _ in V.components]
        if len({len(c) for c in for_coords}) != 1:
            raise NotImplementedError
        x = np.zeros((3, len(for_coords[0])))
        x[: fe.gdim] = for_coords[0].T
        vals = np.asarray(u(x), dtype=float)
        vals = vals.reshape(len(V.components), -1)
        for c in range(len(V.components)):
            self._set(c, vals[c])

    def eval(self, x, cells):
        V = self.function_space
        x = np.atleast_2d(x)
        out = np.zeros((len(x), len(V.components)))
        fe = V.mesh._fe
        for c, (k, dg, dofs) in enumerate(V.components):
            cellnodes, _ = fe.nodes(k, dg)
            for i, (p, cell) in enumerate(zip(x, np.atleast_1d(cells))):
                X = fe.K[cell] @ (p[: fe.gdim] - fe.v0[cell])
                out[i, c] = _fe.tabulate_ref(fe.cell, k, X) @ self._x.array[dofs][cellnodes[cell]]
        return out


def _eval_nodal(fe, k, dg, nodal, pts):
    cellnodes, _ = fe.nodes(k, dg)
    out = np.zeros(len(pts))
    for i, p in enumerate(pts):
        c, X = fe.locate(np.asarray(p)[: fe.gdim])
        if c >= 0:
            out[i] = _fe.tabulate_ref(fe.cell, k, X) @ nodal[cellnodes[c]]
    return out


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        v = np.asarray(c, dtype=float)
        super().__init__(domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain, v.shape)
        self.value = v


class Expression:
    def __init__(self, e, X, **_kw):
        self.ufl_expression = ufl.as_ufl(e)
        self.X = np.asarray(X)


class Form:
    def __init__(self, f):
        self.ufl = f
        self.rank = len(f.arguments())
        self.function_spaces = [a.ufl_function_space() for a in f.arguments()]


def form(f, dtype=None, **_kw):
    if isinstance(f, Form):
        return f
    if isinstance(f, (list, tuple)):
        return [form(g) for g in f]
    if not isinstance(f, ufl.Form):
        raise TypeError(f"cannot compile {type(f)}")
    if not f.integrals():
        raise RuntimeError("form has no integrals")
    _eval.form_mesh(f)
    return Form(f)


def assemble_scalar(M):
    M = form(M)
    if M.rank != 0:
        raise RuntimeError("assemble_scalar needs a functional")
    return _eval.assemble(M.ufl)


def assemble_vector(L):
    class V:
        array = _eval.assemble(form(L).ufl)
    return V()


def assemble_matrix(a, bcs=None):
    return _eval.assemble(form(a).ufl)


from dolfinx.fem import petsc  # noqa: E402
