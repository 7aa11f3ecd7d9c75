"""Stand-in for dolfinx.mesh."""
from __future__ import annotations

import enum

import numpy as np
import ufl

from dolfinx import _env, _fe


class CellType(enum.Enum):
    point = 1
    interval = 2
    triangle = 3
    quadrilateral = 4
    tetrahedron = 5
    hexahedron = 6


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class DiagonalType(enum.Enum):
    left = 0
    right = 1


class _Topology:
    def __init__(self, mesh):
        self._mesh = mesh
        self.dim = mesh._fe.tdim
        self.created = {0, self.dim}
        self.connectivities = set()

    def create_entities(self, d):
        if not 0 <= d <= self.dim:
            raise RuntimeError(f"cannot create entities of dimension {d}")
        self.created.add(d)

    def create_connectivity(self, a, b):
        self.create_entities(a)
        self.create_entities(b)
        self.connectivities.add((a, b))

    @property
    def cell_type(self):
        return CellType[self._mesh._fe.cell]

    def index_map(self, d):
        n = self._mesh.num_entities(d)

        class M:
            size_local = n
            size_global = n
            num_ghosts = 0
        return M()


class _Geometry:
    def __init__(self, fe):
        self.x = np.zeros((len(fe.x), 3))
        self.x[:, : fe.gdim] = fe.x
        self.dim = fe.gdim
        self.dofmap = fe.cells


class Mesh:
    def __init__(self, comm, x, cells, cell, coordinate_degree=1):
        self.comm = comm
        self._fe = _fe.FEMesh(x, cells, cell)
        self._ufl_cell = ufl.Cell(cell, geometric_dimension=self._fe.gdim)
        cargo = _Cargo(self)
        self._ufl_domain = ufl.Mesh(
            ufl.VectorElement("Lagrange", self._ufl_cell, 1, dim=self._fe.gdim), ufl_id=cargo.ufl_id(), cargo=cargo)
        self.topology = _Topology(self)
        self.geometry = _Geometry(self._fe)
        self.name = "mesh"

    def ufl_cell(self):
        return self._ufl_cell

    def ufl_domain(self):
        return self._ufl_domain

    @property
    def edges(self):
        if not hasattr(self, "_edges"):
            seen = {}
            for verts in self._fe.cells:
                for a, b in _fe.EDGES[self._fe.cell]:
                    seen.setdefault(tuple(sorted((verts[a], verts[b]))), len(seen))
            self._edges = seen
        return self._edges

    def num_entities(self, d):
        if d == 0:
            return len(self._fe.x)
        if d == self._fe.tdim:
            return len(self._fe.cells)
        if d == 1:
            return len(self.edges)
        inter, ext = self._fe.facets()
        return len(inter) + len(ext)


class _Cargo:
    def __init__(self, mesh):
        self._mesh = mesh

    def ufl_id(self):
        if not hasattr(self, "_id"):
            _Cargo.count = getattr(_Cargo, "count", 10**6) + 1
            self._id = _Cargo.count
        return self._id

    @property
    def _fe(self):
        return self._mesh._fe


def _clamp(n, limit):
    return n if limit is None else min(n, limit)


def create_interval(comm, nx, points, **_kw):
    nx = _clamp(int(nx), _env.max_interval)
    x = np.linspace(points[0], points[1], nx + 1)[:, None]
    return Mesh(comm, x, [(i, i + 1) for i in range(nx)], "interval")


def create_unit_interval(comm, nx, **_kw):
    return create_interval(comm, nx, (0.0, 1.0))


def create_rectangle(comm, points, n, cell_type=CellType.triangle, **_kw):
    (x0, y0), (x1, y1) = [np.asarray(p)[:2] for p in points]
    nx, ny = n
    xs, ys = np.linspace(x0, x1, nx + 1), np.linspace(y0, y1, ny + 1)
    pts = [(a, b) for b in ys for a in xs]
    v = lambda i, j: j * (nx + 1) + i  # noqa: E731
    cells = []
    for j in range(ny):
        for i in range(nx):
            q = (v(i, j), v(i + 1, j), v(i, j + 1), v(i + 1, j + 1))
            if cell_type == CellType.quadrilateral:
                cells.append(q)
            else:
                cells += [(q[0], q[1], q[3]), (q[0], q[2], q[3])]
    return Mesh(comm, pts, cells, cell_type.name)


def create_unit_square(comm, nx, ny, cell_type=CellType.triangle, **_kw):
    return create_rectangle(comm, [(0, 0), (1, 1)], (nx, ny), cell_type)


def create_box(comm, points, n, cell_type=CellType.tetrahedron, ghost_mode=None, **_kw):
    p0, p1 = [np.asarray(p, dtype=float) for p in points]
    n = [_clamp(int(a), _env.max_box) for a in n]
    ax = [np.linspace(p0[d], p1[d], n[d] + 1) for d in range(3)]
    pts = [(a, b, c) for c in ax[2] for b in ax[1] for a in ax[0]]
    v = lambda i, j, k: (k * (n[1] + 1) + j) * (n[0] + 1) + i  # noqa: E731
    cells = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                c = [v(i + a, j + b, k + d) for d in (0, 1) for b in (0, 1) for a in (0, 1)]
                if cell_type == CellType.hexahedron:
                    cells.append(c)
                else:
                    for perm in ((1, 3), (1, 5), (4, 5), (2, 3), (2, 6), (4, 6)):
                        cells.append((c[0], c[perm[0]], c[perm[1]], c[7]))
    return Mesh(comm, pts, cells, cell_type.name)


def create_unit_cube(comm, nx, ny, nz, cell_type=CellType.tetrahedron, **_kw):
    return create_box(comm, [(0, 0, 0), (1, 1, 1)], (nx, ny, nz), cell_type)


def create_mesh(comm, cells, x, domain, **_kw):
    """domain: ufl.Mesh carrying the coordinate element (DOLFINx 0.6)."""
    cell = domain.ufl_cell().cellname()
    deg = domain.ufl_coordinate_element().degree()
    x = np.asarray(x)
    cells = np.asarray(cells)
    nv = _fe.NVERT[cell]
    expect = len(_fe.lattice(cell, deg))
    if cells.ndim != 2 or cells.shape[1] != expect:
        raise RuntimeError("cell node count does not match the coordinate element")
    if comm.size > 1:  # every process brings a part of the points and cells; here every process keeps the whole mesh
        cells = np.concatenate(comm.allgather(cells.astype(int)))
        x = np.concatenate(comm.allgather(x))
    if domain.geometric_dimension() != x.shape[1]:
        raise RuntimeError("geometric dimension mismatch")
    # the stand-in keeps the vertices only (straight-sided cells); higher-order nodes stay available for checks
    used = np.unique(cells[:, :nv])
    num = {int(v): i for i, v in enumerate(used)}
    m = Mesh(comm, x[used], [[num[int(v)] for v in c[:nv]] for c in cells], cell)
    m.high_order = (x, cells, deg)
    return m


def locate_entities(mesh, dim, marker):
    if dim not in mesh.topology.created:
        raise RuntimeError("entities not created")
    x = mesh.geometry.x.T
    mark = np.asarray(marker(x), dtype=bool)
    if mark.shape != (x.shape[1],):
        raise RuntimeError("marker must return one value per point")
    if dim == mesh.topology.dim:
        ents = mesh._fe.cells
    elif dim == 0:
        ents = np.arange(x.shape[1])[:, None]
    elif dim == 1:
        ents = np.array(list(mesh.edges))
    else:
        raise NotImplementedError
    return np.nonzero(mark[ents].all(axis=1))[0].astype(np.int32)


def locate_entities_boundary(mesh, dim, marker):
    raise NotImplementedError


def compute_incident_entities(arg, entities, d0, d1):
    if _env.version_tuple() < (0, 7):
        if not isinstance(arg, Mesh):
            raise TypeError("compute_incident_entities(): incompatible function arguments (expected a mesh)")
        mesh = arg
    else:
        if not isinstance(arg, _Topology):
            raise TypeError("compute_incident_entities(): incompatible function arguments (expected a topology)")
        mesh = arg._mesh
    for d in (d0, d1):
        if d not in mesh.topology.created:
            raise RuntimeError("entities not created")
    if d0 != mesh.topology.dim or d1 != 1:
        raise NotImplementedError
    out = set()
    for c in entities:
        verts = mesh._fe.cells[c]
        for a, b in _fe.EDGES[mesh._fe.cell]:
            out.add(mesh.edges[tuple(sorted((verts[a], verts[b])))])
    return np.array(sorted(out), dtype=np.int32)


def refine(mesh, edges=None, redistribute=True, **_kw):
    """Plaza-type refinement: every marked edge is split; a cell with a marked edge also splits its longest edge."""
    if 1 not in mesh.topology.created:
        raise RuntimeError("Edges must be created before refinement")
    fe = mesh._fe
    x = [tuple(p) for p in fe.x]
    names = list(mesh.edges)
    if edges is None:
        marked = set(names)
    else:
        marked = {names[int(e)] for e in edges}
    length = {e: float(np.linalg.norm(fe.x[e[0]] - fe.x[e[1]])) for e in names}
    cell_edges = [[tuple(sorted((c[a], c[b]))) for a, b in _fe.EDGES[fe.cell]] for c in fe.cells]
    longest = [max(ce, key=lambda e: (length[e], e)) for ce in cell_edges]
    changed = True
    while changed:
        changed = False
        for ce, lo in zip(cell_edges, longest):
            if lo not in marked and any(e in marked for e in ce):
                marked.add(lo)
                changed = True
    mid = {}
    for e in names:
        if e in marked:
            mid[e] = len(x)
            x.append(tuple((fe.x[e[0]] + fe.x[e[1]]) / 2))
    m = lambda a, b: mid.get(tuple(sorted((a, b))))  # noqa: E731
    cells = []
    for c, ce, lo in zip(fe.cells, cell_edges, longest):
        n = sum(e in marked for e in ce)
        if n == 0:
            cells.append(tuple(c))
        elif fe.cell == "interval":
            cells += [(c[0], m(*c)), (m(*c), c[1])]
        elif fe.cell == "triangle":
            a, b = lo
            o = next(v for v in c if v not in lo)
            p = m(a, b)
            for s in (a, b):
                q = m(s, o)
                cells += [(s, p, o)] if q is None else [(s, p, q), (p, q, o)]
        elif fe.cell == "tetrahedron":
            if n != 6:
                raise NotImplementedError("partial refinement of tetrahedra")
            v0, v1, v2, v3 = c
            e01, e02, e03, e12, e13, e23 = m(v0, v1), m(v0, v2), m(v0, v3), m(v1, v2), m(v1, v3), m(v2, v3)
            cells += [(v0, e01, e02, e03), (v1, e01, e12, e13), (v2, e02, e12, e23), (v3, e03, e13, e23),
                      (e01, e23, e02, e03), (e01, e23, e03, e13), (e01, e23, e13, e12), (e01, e23, e12, e02)]
        else:
            raise NotImplementedError
    new = Mesh(mesh.comm, np.array(x), cells, fe.cell)
    new.refined_from = mesh
    return new


def meshtags(mesh, dim, entities, values):
    class T:
        pass
    t = T()
    t.dim, t.indices, t.values = dim, np.asarray(entities), np.asarray(values)
    return t
