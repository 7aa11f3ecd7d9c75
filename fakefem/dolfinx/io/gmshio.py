"""Stand-in for dolfinx.io.gmshio."""
import numpy as np
import ufl

from dolfinx import _env

_ids = {1: ("interval", 1), 2: ("triangle", 1), 3: ("quadrilateral", 1), 4: ("tetrahedron", 1), 8: ("interval", 2),
        9: ("triangle", 2), 21: ("triangle", 3)}


def ufl_mesh(gmsh_cell, gdim):
    shape, degree = _ids[int(gmsh_cell)]
    cell = ufl.Cell(shape, geometric_dimension=gdim)
    return ufl.Mesh(ufl.VectorElement("Lagrange", cell, degree, dim=gdim))


def model_to_mesh(model, comm, rank, gdim=3, **_kw):
    from dolfinx.mesh import Mesh, meshtags
    _env.event("model_to_mesh", comm=comm)
    tags, pts, _ = model.mesh.getNodes()
    pts = np.asarray(pts).reshape(-1, 3)
    groups = [(d, t) for d, t in model.getPhysicalGroups() if d == gdim]
    if not groups:
        raise RuntimeError("no physical group of the mesh dimension")
    cells, marks = [], []
    for d, t in groups:
        for ent in model.getEntitiesForPhysicalGroup(d, t):
            types, _e, nodes = model.mesh.getElements(d, ent)
            for ty, nd in zip(types, nodes):
                shape, deg = _ids[int(ty)]
                nv = {"triangle": 3, "tetrahedron": 4}[shape]
                arr = np.asarray(nd, dtype=int).reshape(-1, nv)
                cells.append(arr)
                marks += [t] * len(arr)
    cells = np.concatenate(cells)
    pos = {int(t): i for i, t in enumerate(tags)}
    used = np.unique(cells)
    num = {int(v): i for i, v in enumerate(used)}
    x = np.array([pts[pos[int(v)]] for v in used])[:, :gdim]
    m = Mesh(comm, x, [[num[int(v)] for v in c] for c in cells], "tetrahedron" if gdim == 3 else "triangle")
    return m, meshtags(m, gdim, np.arange(len(cells)), marks), meshtags(m, gdim - 1, [], [])
