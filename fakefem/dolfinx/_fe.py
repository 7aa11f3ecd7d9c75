"""Reference elements, quadrature and affine meshes of the DOLFINx stand-in."""
from __future__ import annotations

import functools
import itertools

import numpy as np

SIMPLEX = {"interval": 1, "triangle": 2, "tetrahedron": 3}
TENSOR = {"quadrilateral": 2, "hexahedron": 3}
TDIM = {**SIMPLEX, **TENSOR, "point": 0}
NVERT = {"point": 1, "interval": 2, "triangle": 3, "tetrahedron": 4, "quadrilateral": 4, "hexahedron": 8}


def ref_vertices(cell):
    if cell in SIMPLEX:
        d = SIMPLEX[cell]
        return np.vstack([np.zeros((1, d)), np.eye(d)])
    d = TENSOR[cell]  # DOLFINx: first coordinate fastest
    return np.array([[(v >> a) & 1 for a in range(d)] for v in range(2**d)], dtype=float)


FACETS = {
    "interval": [(0,), (1,)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
}
EDGES = {
    "interval": [(0, 1)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "hexahedron": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
}
FACET_CELL = {"interval": "point", "triangle": "interval", "tetrahedron": "triangle",
              "quadrilateral": "interval", "hexahedron": "quadrilateral"}


@functools.lru_cache(None)
def lattice(cell, k):
    d = TDIM[cell]
    if k == 0:
        return np.mean(ref_vertices(cell), axis=0)[None, :]
    if cell in SIMPLEX:
        pts = [p for p in itertools.product(range(k + 1), repeat=d) if sum(p) <= k]
    else:
        pts = list(itertools.product(range(k + 1), repeat=d))
    return np.array(pts, dtype=float) / k


@functools.lru_cache(None)
def monomials(cell, k):
    d = TDIM[cell]
    exps = itertools.product(range(k + 1), repeat=d)
    return np.array([e for e in exps if cell in TENSOR or sum(e) <= k], dtype=int)


def eval_monomials(exps, X, deriv=()):
    """X: [..., d]; deriv: tuple of reference directions; returns [..., nmono]."""
    d = exps.shape[1]
    count = [deriv.count(a) for a in range(d)]
    out = np.ones(X.shape[:-1] + (len(exps),))
    for a in range(d):
        e = exps[:, a].copy()
        c = np.ones(len(exps))
        for _ in range(count[a]):
            c = c * e
            e = np.maximum(e - 1, 0)
        out = out * c * X[..., a, None] ** e
    return out


@functools.lru_cache(None)
def basis_coeffs(cell, k):
    v = eval_monomials(monomials(cell, k), lattice(cell, k))
    return np.linalg.inv(v)


def tabulate_ref(cell, k, X, deriv=()):
    """Reference derivatives of the nodal basis at X [..., d] -> [..., ndofs]."""
    return eval_monomials(monomials(cell, k), X, deriv) @ basis_coeffs(cell, k)


@functools.lru_cache(None)
def quadrature(cell, degree):
    """Points [nq, d] and weights on the reference cell, exact for the given total/tensor degree."""
    n = max(1, (degree + 2) // 2)
    if cell == "point":
        return np.zeros((1, 0)), np.ones(1)
    g, w = np.polynomial.legendre.leggauss(n + (TDIM[cell] if cell in SIMPLEX else 0))
    g, w = (g + 1) / 2, w / 2
    d = TDIM[cell]
    P = np.array(list(itertools.product(g, repeat=d)))
    W = np.array([np.prod(c) for c in itertools.product(w, repeat=d)])
    if cell in TENSOR or d == 1:
        return P, W
    if d == 2:  # Duffy
        return np.stack([P[:, 0], P[:, 1] * (1 - P[:, 0])], axis=1), W * (1 - P[:, 0])
    a, b, c = P.T
    return (np.stack([a, b * (1 - a), c * (1 - a) * (1 - b)], axis=1), W * (1 - a) ** 2 * (1 - b))


class FEMesh:
    """Affine mesh with tables; the DOLFINx-facing wrapper is dolfinx.mesh.Mesh."""

    def __init__(self, x, cells, cell):
        self.x = np.array(x, dtype=float)
        self.cells = np.array(cells, dtype=np.int64).reshape(-1, NVERT[cell])
        self.cell = cell
        self.tdim = TDIM[cell]
        self.gdim = self.x.shape[1]
        nc = len(self.cells)
        v = self.x[self.cells]
        if cell in SIMPLEX:
            edge_idx = list(range(1, self.tdim + 1))
        else:
            edge_idx = [2**a for a in range(self.tdim)]
        self.v0 = v[:, 0]
        self.J = np.stack([v[:, e] - v[:, 0] for e in edge_idx], axis=2) if nc else np.zeros((0, self.gdim, self.tdim))
        if self.gdim != self.tdim:
            raise NotImplementedError("stand-in supports gdim == tdim only")
        det = np.linalg.det(self.J)
        self.detJ = np.abs(det)
        if np.any(self.detJ <= 0):
            raise RuntimeError("degenerate cell")
        self.K = np.linalg.inv(self.J)
        diff = v[:, :, None, :] - v[:, None, :, :]
        self.h = np.sqrt((diff**2).sum(-1)).max(axis=(1, 2))
        self._nodes = {}
        self._tabs = {}
        self._facets = None

    def facets(self):
        """interior: list (c+, lf+, c-, lf-), exterior: list (c, lf)."""
        if self._facets is None:
            seen = {}
            for c, verts in enumerate(self.cells):
                for lf, fv in enumerate(FACETS[self.cell]):
                    seen.setdefault(tuple(sorted(verts[list(fv)])), []).append((c, lf))
            inter, ext = [], []
            for key, lst in seen.items():
                if len(lst) > 2:
                    raise RuntimeError("non-manifold facet")
                if len(lst) == 2:
                    inter.append((*lst[0], *lst[1], key))
                else:
                    ext.append((*lst[0], key))
            self._facets = inter, ext
        return self._facets

    def nodes(self, k, dg=False):
        """Scalar nodes of degree k: (cellnodes [nc, nd], coordinates [nn, gdim])."""
        key = (k, dg)
        if key not in self._nodes:
            L = lattice(self.cell, k)
            X = self.v0[:, None, :] + np.einsum("cij,qj->cqi", self.J, L)
            nc, nd = X.shape[:2]
            flat = X.reshape(-1, self.gdim)
            if dg or k == 0:
                ids = np.arange(nc * nd)
                coords = flat
            else:
                scale = max(1e-300, np.abs(self.x).max())
                keyed = np.round(flat / scale * 9876543.2123457 + 0.123456).astype(np.int64)
                _, first, ids = np.unique(keyed, axis=0, return_index=True, return_inverse=True)
                ids = ids.reshape(-1)
                coords = flat[first]
            self._nodes[key] = (ids.reshape(nc, nd), coords)
        return self._nodes[key]

    def points(self, itype, degree):
        """Integration entities: list of (side -> (cells, X_ref [n,nq,d])), weights [n,nq], normals per side."""
        key = (itype, degree)
        if key in self._tabs:
            return self._tabs[key]
        if itype == "cell":
            P, W = quadrature(self.cell, degree)
            n = len(self.cells)
            res = {"": (np.arange(n), np.broadcast_to(P, (n,) + P.shape))}, W[None, :] * self.detJ[:, None], {}
        else:
            inter, ext = self.facets()
            lst = inter if itype == "interior_facet" else ext
            fcell = FACET_CELL[self.cell]
            P, W = quadrature(fcell, degree)
            n, nq = len(lst), len(W)
            sides = {"+": [], "-": []} if itype == "interior_facet" else {"": []}
            phys = np.zeros((n, nq, self.gdim))
            wts = np.zeros((n, nq))
            for f, ent in enumerate(lst):
                c, lf = ent[0], ent[1]
                fv = self.x[self.cells[c][list(FACETS[self.cell][lf])]]
                if fcell == "point":
                    phys[f] = fv[0]
                    wts[f] = W
                else:
                    if fcell in SIMPLEX:
                        T = np.stack([fv[i] - fv[0] for i in range(1, len(fv))], axis=1)
                    else:
                        T = np.stack([fv[1] - fv[0], fv[2] - fv[0]], axis=1)
                    phys[f] = fv[0] + P @ T.T
                    wts[f] = W * np.sqrt(np.linalg.det(T.T @ T))
            cells = {s: [] for s in sides}
            normals = {s: np.zeros((n, self.gdim)) for s in sides}
            for f, ent in enumerate(lst):
                pairs = [("+", ent[0], ent[1]), ("-", ent[2], ent[3])] if itype == "interior_facet" else [("", ent[0], ent[1])]
                for s, c, lf in pairs:
                    cells[s].append(c)
                    normals[s][f] = self._normal(c, lf)
            out = {}
            for s in sides:
                ci = np.array(cells[s], dtype=int)
                X = np.einsum("fij,fqj->fqi", self.K[ci], phys - self.v0[ci][:, None, :]) if n else np.zeros((0, nq, self.tdim))
                out[s] = (ci, X)
            res = out, wts, normals
        self._tabs[key] = res
        return res

    def _normal(self, c, lf):
        fverts = list(FACETS[self.cell][lf])
        fv = self.x[self.cells[c][fverts]]
        centre = self.x[self.cells[c]].mean(axis=0)
        fc = fv.mean(axis=0)
        if self.gdim == 1:
            return np.sign(fc - centre)
        if self.gdim == 2:
            t = fv[1] - fv[0]
            n = np.array([t[1], -t[0]])
        else:
            n = np.cross(fv[1] - fv[0], fv[2] - fv[0])
        n = n / np.linalg.norm(n)
        return n if n @ (fc - centre) > 0 else -n

    def table(self, itype, degree, side, k, deriv=()):
        """Physical derivative table [n, nq, nd]."""
        key = ("T", itype, degree, side, k, deriv)
        if key not in self._tabs:
            ci, X = self.points(itype, degree)[0][side]
            self._tabs[key] = self.tabulate(ci, X, k, deriv, same=(itype == "cell"))
        return self._tabs[key]

    def tabulate(self, ci, X, k, deriv=(), same=False):
        if same:
            X = X[:1]
        out = 0.0
        for dirs in itertools.product(range(self.tdim), repeat=len(deriv)):
            T = tabulate_ref(self.cell, k, X, dirs)
            if len(deriv) == 0:
                out = np.broadcast_to(T, (len(ci),) + T.shape[1:]) if same else T
                break
            f = np.ones(len(ci))
            for a, i in zip(dirs, deriv):
                f = f * self.K[ci][:, a, i]
            out = out + f[:, None, None] * T
        return out

    def locate(self, p, tol=1e-9):
        X = np.einsum("cij,cj->ci", self.K, p[None, :] - self.v0)
        if self.cell in SIMPLEX:
            bad = np.maximum(-X.min(axis=1), X.sum(axis=1) - 1)
        else:
            bad = np.maximum(-X.min(axis=1), X.max(axis=1) - 1)
        c = int(np.argmin(bad))
        if bad[c] > tol:
            return -1, None
        # first cell containing the point (deterministic)
        c = int(np.nonzero(bad <= tol)[0][0])
        return c, X[c]
