"""Nested mesh pairs and reference transfer operators."""
import numpy as np
import stprob as P
from dolfinx import _fe

PAIRS = (["interval", 1], ["interval", 2], ["irregular", 3], ["square", 1, 1], ["skew"], ["tet", 1])


def pair(spec):
    coarse = P.make_mesh(spec)
    return coarse, P.refine_uniform(coarse)


def prepare_other(st, c, which):
    """Prepares another coarse mesh first: one of the same size elsewhere, or one of another size."""
    if which == "none":
        return
    m = P.make_mesh(c["mesh"])
    if which == "refined" and m._fe.gdim == 1:
        m = P.refine_uniform(m)
    x = m._fe.x * 2.0 - 0.25 if which == "scaled" else m._fe.x
    st.prepare_coarse_grid_correction(type(m)(m.comm, x, m._fe.cells, m._fe.cell))


def evaluation(fe, k, pts):
    """matrix of the basis functions of the given mesh (canonical nodes) at points."""
    nodes, coords = fe.nodes(k)
    out = np.zeros((len(pts), len(coords)))
    V = np.array([fe.x[c] for c in fe.cells])
    for i, p in enumerate(pts):
        best, bc = -np.inf, None
        for c in range(len(fe.cells)):
            A = (V[c][1:fe.gdim + 1] - V[c][0]).T
            X = np.linalg.solve(A, np.asarray(p)[:fe.gdim] - V[c][0])
            m = min(X.min(), 1 - X.sum())
            if m > best:
                best, bc, bX = m, c, X
        # lattice nodes determine a polynomial: interpolate through them
        loc = coords[nodes[bc]]
        mono = _fe.monomials(fe.cell, k)
        A = (V[bc][1:fe.gdim + 1] - V[bc][0]).T
        L = np.array([np.linalg.solve(A, z - V[bc][0]) for z in loc])
        vander = np.array([[np.prod(l ** m) for m in mono] for l in L])
        row = np.array([np.prod(bX ** m) for m in mono])
        out[i, nodes[bc]] = np.linalg.solve(vander.T, row)
    return out


def transfer(c, coarse, fine):
    """(prolongation, restriction) as matrices between canonical vectors."""
    blocks_p, blocks_r = [], []
    for f in range(4):
        k, order = (c["k"], c["q"]) if f < 2 else (c["ks"], c["qs"])
        Pm = evaluation(coarse._fe, k, fine._fe.nodes(k)[1])
        Rm = evaluation(fine._fe, k, coarse._fe.nodes(k)[1])
        for _ in range(c["N"] * (order + 1)):
            blocks_p.append(Pm)
            blocks_r.append(Rm)
    import scipy.linalg as sl
    return sl.block_diag(*blocks_p), sl.block_diag(*blocks_r)
