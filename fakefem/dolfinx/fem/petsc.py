"""Stand-in for dolfinx.fem.petsc."""
import numpy as np
from petsc4py import PETSc

from dolfinx import _eval


def _f(a):
    from dolfinx import fem
    return fem.form(a)


def create_vector(L):
    L = _f(L)
    if L.rank != 1:
        raise RuntimeError("create_vector needs a linear form")
    v = PETSc.Vec().createSeq(L.function_spaces[0].num_dofs, comm=PETSc.COMM_SELF)
    v.set(0.0)
    return v


def assemble_vector(a, b=None):
    """assemble_vector(L) -> new vector; assemble_vector(b, L) adds to b."""
    if b is None:
        v = create_vector(a)
        L = a
    else:
        v, L = a, b
    L = _f(L)
    if L.rank != 1:
        raise RuntimeError("assemble_vector needs a linear form")
    v.array[:] += _eval.assemble(L.ufl)
    return v


def create_matrix(a):
    a = _f(a)
    A = PETSc.Mat().createAIJ((a.function_spaces[0].num_dofs, a.function_spaces[1].num_dofs), comm=PETSc.COMM_SELF)
    A.setUp()
    return A


def assemble_matrix(a, bcs=(), diagonal=1.0, *_a, **_k):
    a = _f(a)
    if a.rank != 2:
        raise RuntimeError("assemble_matrix needs a bilinear form")
    if bcs:
        raise NotImplementedError
    S = _eval.assemble(a.ufl)
    # keep a structural diagonal (as a direct solver needs it)
    n, m = S.shape
    A = PETSc.Mat().createAIJ((n, m), nnz=np.maximum(np.diff(S.indptr), 1).astype(np.int32), comm=PETSc.COMM_SELF)
    A.setValuesCSR(S.indptr.astype(np.int32), S.indices.astype(np.int32), S.data)   # not assembled, like the library's
    return A
