"""Mesh generators of dxss.meshes: what each documents (domain, interior interfaces), and geometric oracles."""
import os
import shutil
import tempfile

import numpy as np
import paths
from scipy.optimize import linprog

paths.use_standin()
import dolfinx.mesh as dm  # noqa: E402
import gmsh  # noqa: E402
from dolfinx import _fe  # noqa: E402

UNIT2, UNIT3 = ((0, 0), (1, 1)), ((0, 0, 0), (1, 1, 1))
BIG = ((-1.5, -1.5), (1.5, 1.5))
CONVEX = [((0.1, 0.25), (0.9, 0.95)), ((0.1, 0.95), (0.9, 1.0)), ((0.1, 0.25), (0.9, 1.0))]
NONCONVEX = [((0.25, 0.05), (0.75, 0.5)), ((0.125, 0.05), (0.875, 0.95))]


def square_parts(eta=1.25, x_l=-1.25, x_r=1.25, y_l=-1.25, y_r=1.25):
    lim = 1.5 if eta < 1.5 else None
    b = [((-0.75, -0.75), (0.75, 0.75)), ((-1.25, -1.25), (1.25, min(eta - 0.1, 1.4)))]
    if lim is not None:
        b.append(((-1.5, -1.5), (1.5, eta)))
        b.append(((x_l, y_l), (x_r, eta)))
        if y_r > eta:
            b.append(((x_l, eta), (x_r, y_r)))
    else:
        b += [((x_l, y_l), (x_r, y_r)), ((-1.25, -1.25), (1.25, 1.5))]
    return b


def disc_parts(eta):
    return [((0, 0), (1, eta)), ((0.1, 0.25), (0.9, eta)), ((0.1, eta - 0.25), (0.9, 0.95)), ((0, eta - 0.25), (1, 1))]


def bottom_parts(eta=0.6):
    return [((0, 0), (1, 0.25)), ((0.25, 0.25), (0.75, 0.9)), ((0.25, 0.25), (0.75, eta)), ((0, 0), (1, eta))]


# name -> (how the size factor is passed, domain, boxes(params), parameter menu, call with n_ref?)
GENERATORS = {
    "create_initial_mesh_convex": ("init_h_scale", UNIT2, lambda **_: CONVEX, [{}], None),
    "get_mesh_convex": ("init_h_scale", UNIT2, lambda **_: CONVEX, [{}], "regenerate"),
    "get_mesh_hierarchy": ("init_h_scale", UNIT2, lambda **_: CONVEX, [{}], "refine"),
    "get_mesh_hierarchy_nonconvex": ("init_h_scale", UNIT2, lambda **_: NONCONVEX, [{}], "refine"),
    "get_mesh_hierarchy_fitted_disc": ("h_init", UNIT2, lambda eta: disc_parts(eta), [{"eta": e} for e in (0.3, 0.5, 0.6, 0.8, 0.4375, 0.71828, 0.9)], "refine"),
    "get_mesh_inclusion": ("h_init", BIG, lambda **_: [((-0.5, -0.5), (0.5, 0.5)), ((-1.25, -1.25), (1.25, 1.5))],
                           [{"order": 1}, {"order": 2}, {"order": 3}, {}], None),
    "get_mesh_inclusion_square": ("h_init", BIG, square_parts, [{}, {"eta": 1.5}, {"eta": 1.0}, {"eta": 0.75}, {"eta": 0.0}, {"y_r": 1.5},
                                                                {"eta": 0.5, "x_l": -1.5, "x_r": 1.5}, {"eta": 0.8125, "x_l": -1.1375, "x_r": 0.90625, "y_l": -1.33333, "y_r": 1.21875},
                                                                {"eta": 1.0, "y_r": 1.0}], None),
    "get_mesh_bottom_data": ("h_init", UNIT2, bottom_parts, [{}, {"eta": 0.3}, {"eta": 0.5}, {"eta": 0.4375}, {"eta": 0.71828}, {"eta": 0.8}], None),
    "get_mesh_data_all_around": ("init_h_scale", UNIT2, lambda **_: [((0.2, 0.2), (0.8, 0.8))], [{}], "refine"),
    "get_3d_mesh_data_all_around": ("init_h_scale", UNIT3, lambda **_: [((0.2,) * 3, (0.8,) * 3)], [{}], "refine"),
}


class Scratch:
    """A working directory of our own for the exchange files."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif-mesh-")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        if gmsh.isInitialized():
            gmsh.finalize()


def generate(name, h=None, n_ref=None, **params):
    import dxss.meshes as M
    how, _, _, _, levels = GENERATORS[name]
    kw = dict(params)
    if h is not None:
        kw[how] = h
    if levels is not None:
        kw["n_ref"] = (1 if levels == "regenerate" else 0) if n_ref is None else n_ref
    return getattr(M, name)(**kw)


def as_list(r):
    return list(r) if isinstance(r, (list, tuple)) else [r]


def volumes(fe):
    X = fe.x[fe.cells]
    d = fe.gdim
    return np.abs(np.linalg.det(X[:, 1:d + 1] - X[:, :1])) / (2 if d == 2 else 6)


def boundary_measure(fe, facets):
    out = 0.0
    for f in facets:
        P = fe.x[list(f)]
        if fe.gdim == 2:
            out += np.linalg.norm(P[1] - P[0])
        else:
            out += np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])) / 2
    return out


def overlaps(P, lo, hi, tol=1e-9):
    """Do the interiors of the simplex with corners P and of the box meet?"""
    n, d = P.shape
    # max t: lo + t <= sum l_i P_i <= hi - t
    A = np.vstack([np.hstack([-P.T, np.ones((d, 1))]), np.hstack([P.T, np.ones((d, 1))]),
                   np.hstack([-np.eye(n), np.ones((n, 1))])])
    b = np.concatenate([-lo, hi, np.zeros(n)])
    r = linprog(np.r_[np.zeros(n), -1.0], A_ub=A, b_ub=b, A_eq=[[1.0] * n + [0.0]], b_eq=[1.0], bounds=[(None, None)] * (n + 1))
    return r.status == 0 and r.x[-1] > tol


def crossing(fe, lo, hi, tol=1e-9):
    """Cells that are neither inside the box nor outside of it."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    X = fe.x[fe.cells]
    inside = ((X >= lo - tol) & (X <= hi + tol)).all(axis=(1, 2))
    below = (X <= lo + tol).all(axis=1).any(axis=1)
    above = (X >= hi - tol).all(axis=1).any(axis=1)
    return [i for i in np.nonzero(~(inside | below | above))[0] if overlaps(X[i], lo, hi, tol)]


def problems(mesh, domain, boxes, circle=None):
    """What is wrong with the mesh as a conforming triangulation of the domain resolving the boxes: (key, text) list."""
    fe, out = mesh._fe, []
    lo, hi = np.asarray(domain[0], float), np.asarray(domain[1], float)
    tol = 1e-9
    if fe.gdim != len(lo) or fe.tdim != len(lo):
        return [("dimension", f"mesh of dimension {fe.tdim} in {fe.gdim} dimensions")]
    vol = volumes(fe)
    if vol.min() < 1e-9:
        out.append(("degenerate", f"cell {vol.argmin()} has volume {vol.min():.2e}"))
    if (fe.x < lo - tol).any() or (fe.x > hi + tol).any():
        out.append(("outside", f"nodes outside the domain, up to {np.max(np.maximum(lo - fe.x, fe.x - hi)):.2e}"))
    r = np.unique(np.round(fe.x, 9), axis=0)
    if len(r) != len(fe.x):
        out.append(("duplicate nodes", f"{len(fe.x) - len(r)} nodes coincide with others"))
    if len(np.unique(fe.cells)) != len(fe.x):
        out.append(("orphan nodes", "nodes without a cell"))
    if abs(vol.sum() - np.prod(hi - lo)) > 1e-7 * np.prod(hi - lo):
        out.append(("coverage", f"cells cover {vol.sum():.9f} of {np.prod(hi - lo):.9f}"))
    seen = {}
    for c, verts in enumerate(fe.cells):
        for fv in _fe.FACETS[fe.cell]:
            seen.setdefault(tuple(sorted(int(v) for v in verts[list(fv)])), []).append(c)
    if max(len(v) for v in seen.values()) > 2:
        out.append(("conformity", "facet shared by more than two cells"))
    bnd = [f for f, c in seen.items() if len(c) == 1]
    for f in bnd:
        P = fe.x[list(f)]
        if not ((np.abs(P - lo) < tol).all(axis=0) | (np.abs(P - hi) < tol).all(axis=0)).any():
            out.append(("conformity", f"hanging node or hole: the facet {P.tolist()} inside the domain belongs to one cell"))
            break
    ext = hi - lo
    surface = 2 * ext.sum() if fe.gdim == 2 else 2 * (ext[0] * ext[1] + ext[1] * ext[2] + ext[0] * ext[2])
    if abs(boundary_measure(fe, bnd) - surface) > 1e-7 * surface:
        out.append(("boundary", f"boundary facets measure {boundary_measure(fe, bnd):.9f} instead of {surface:.9f}"))
    for b in boxes:
        bad = crossing(fe, *b)
        if bad:
            out.append((f"interface:{b}", f"{len(bad)} cells cross the boundary of {b}, e.g. {fe.x[fe.cells[bad[0]]].tolist()}"))
    if circle is not None:
        rad = np.linalg.norm(fe.x[fe.cells], axis=2)
        bad = ~((rad <= circle + 1e-9).all(axis=1) | (rad >= circle - 1e-9).all(axis=1))
        if bad.any():
            out.append(("interface:circle", f"{bad.sum()} cells cross the circle of radius {circle}"))
        on = np.abs(np.linalg.norm(fe.x, axis=1) - circle) < 1e-9
        if on.sum() < 4:
            out.append(("interface:circle", "the circle is not resolved"))
    return out


# DOLFINx: vertices, then the edges opposite to vertices 0, 1, 2 (from the lower to the higher local vertex), then the interior
DOLFINX_NODES = {
    1: [(0, 0), (1, 0), (0, 1)],
    2: [(0, 0), (1, 0), (0, 1), (1 / 2, 1 / 2), (0, 1 / 2), (1 / 2, 0)],
    3: [(0, 0), (1, 0), (0, 1), (2 / 3, 1 / 3), (1 / 3, 2 / 3), (0, 1 / 3), (0, 2 / 3), (1 / 3, 0), (2 / 3, 0), (1 / 3, 1 / 3)],
}


def curved_problems(mesh, circle):
    """Higher-order geometry of an inclusion mesh: node order, nodes on the circle, no fold."""
    x, cells, deg = mesh.high_order
    ref = np.array(DOLFINX_NODES[deg])
    out = []
    if len(np.unique(np.round(x, 9), axis=0)) != len(x):
        out.append(("curved:duplicate nodes", "coinciding nodes"))
    exps = [(a, b) for a in range(deg + 1) for b in range(deg + 1 - a)]
    V = np.array([[p[0] ** a * p[1] ** b for a, b in exps] for p in ref])
    grid = np.array([(i / 12, j / 12) for i in range(13) for j in range(13 - i)])
    dx = np.array([[a * p[0] ** max(a - 1, 0) * p[1] ** b if a else 0.0 for a, b in exps] for p in grid])
    dy = np.array([[b * p[0] ** a * p[1] ** max(b - 1, 0) if b else 0.0 for a, b in exps] for p in grid])
    Gx, Gy = dx @ np.linalg.inv(V), dy @ np.linalg.inv(V)
    folded, off = [], 0
    for i, c in enumerate(cells):
        P = x[c]
        rad = np.linalg.norm(P[:3], axis=1)
        on = np.abs(rad - circle) < 1e-9
        aff = P[0] + ref @ (P[1:3] - P[0])
        for e, (a, b) in enumerate(((1, 2), (0, 2), (0, 1))):
            nodes = range(3 + e * (deg - 1), 3 + (e + 1) * (deg - 1))
            for k in nodes:
                straight = np.abs(P[k] - aff[k]).max() < 1e-7
                curved = on[a] and on[b] and abs(np.linalg.norm(P[k]) - circle) < 1e-6 and np.abs(P[k] - aff[k]).max() < 0.5 * np.linalg.norm(P[a] - P[b])
                if not (straight or curved):
                    off += 1
        a, b = Gx @ P, Gy @ P
        det = a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]
        if det.min() <= 0 < det.max() or np.abs(det).min() < 1e-10:
            folded.append(i)
    if off:
        out.append(("curved:nodes", f"{off} edge nodes are neither on their straight edge nor on the circle"))
    if folded:
        out.append(("curved:folded", f"{len(folded)} of {len(cells)} curved cells are folded (Jacobian changes sign)"))
    if deg > 1 and not off:
        # an arc of the circle must really be curved
        r = np.linalg.norm(x, axis=1)
        if (np.abs(r - circle) < 1e-7).sum() <= (np.abs(np.linalg.norm(mesh._fe.x, axis=1) - circle) < 1e-7).sum():
            out.append(("curved:nodes", "no higher-order node lies on the circle"))
    return out


def signature(mesh):
    """Mesh up to numbering, rounded to 1e-9: sorted cells as sets of points; plus tags and higher-order nodes."""
    fe = mesh._fe
    pts = [tuple(np.round(p, 9) + 0.0) for p in fe.x]
    cells = sorted(tuple(sorted(pts[v] for v in c)) for c in fe.cells)
    tags = []
    for typ, P, data, vals in getattr(mesh, "read_tags", []):
        q = [tuple(np.round(p[:2], 9) + 0.0) for p in P]
        tags.append((typ, sorted((tuple(sorted(q[v] for v in e)), int(t)) for e, t in zip(data, vals))))
    ho = getattr(mesh, "high_order", None)
    extra = None
    if ho is not None and ho[2] > 1:
        extra = sorted(tuple(np.round(p, 9) + 0.0) for p in ho[0])
    return cells, tags, extra


def children(coarse, fine, tol=1e-9):
    """For every coarse cell the fine cells inside it; raises ValueError if a fine cell lies in none."""
    P = coarse._fe.x[coarse._fe.cells]
    d = coarse._fe.gdim
    inv = np.linalg.inv(np.swapaxes(P[:, 1:d + 1] - P[:, :1], 1, 2))
    X = fine._fe.x[fine._fe.cells]
    kids = [[] for _ in P]
    mid = X.mean(axis=1)
    for i in range(len(X)):
        lam = np.einsum("cij,cj->ci", inv, mid[i] - P[:, 0])
        owner = int(np.argmax(np.minimum(lam.min(axis=1), 1 - lam.sum(axis=1))))
        L = (inv[owner] @ (X[i] - P[owner, 0]).T).T
        if L.min() < -tol or (1 - L.sum(axis=1)).min() < -tol:
            raise ValueError(f"cell {i} {X[i].tolist()} is in no cell of the coarser level")
        kids[owner].append(i)
    return kids
