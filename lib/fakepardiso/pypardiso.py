"""Stand-in for PyPardiso 0.4: same interface, phases and checks, factorisation by SuperLU."""
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla


class PyPardisoError(Exception):
    pass


class PyPardisoWarning(UserWarning):
    pass


class PyPardisoSolver:
    def __init__(self, mtype=11, phase=13, size_limit_storage=5e7):
        if mtype not in (1, 2, -2, 11):
            raise PyPardisoError("mtype")
        self.mtype, self.phase = mtype, phase
        self.factorized_A = sp.csr_matrix((0, 0))
        self.size_limit_storage = size_limit_storage
        self._lu = None
        self.calls = []

    def set_phase(self, phase):
        self.phase = phase

    def set_matrix_type(self, mtype):
        self.mtype = mtype

    def factorize(self, A):
        self._check_A(A)
        self.factorized_A = A.copy()
        self.set_phase(12)
        self._call_pardiso(A, np.zeros((A.shape[0], 1)))

    def solve(self, A, b):
        self._check_A(A)
        b = self._check_b(A, b)
        if self._is_already_factorized(A):
            self.set_phase(33)
        else:
            self.set_phase(13)
        return self._call_pardiso(A, b)

    def _is_already_factorized(self, A):
        F = self.factorized_A
        return F.shape == A.shape and F.nnz == A.nnz and (F != A).nnz == 0

    def _check_A(self, A):
        if A.shape[0] != A.shape[1]:
            raise ValueError(f"Matrix A needs to be square, but has shape: {A.shape}")
        if not sp.isspmatrix_csr(A):
            raise TypeError(f"PyPardiso requires matrix A to be in CSR or CSC format, but matrix A is: {type(A)}")
        if not A.has_sorted_indices:
            A.sort_indices()
        if not np.diff(A.indptr).all():
            raise ValueError("Matrix A is singular, because it contains empty row(s)")
        if A.dtype != np.float64:
            raise TypeError(f"PyPardiso currently only supports float64, but matrix A has dtype: {A.dtype}")

    def _check_b(self, A, b):
        if sp.isspmatrix(b):
            warnings.warn("PyPardiso requires the right-hand side b to be a dense array", PyPardisoWarning, stacklevel=2)
            b = b.todense()
        if np.isfortran(b):
            b = np.ascontiguousarray(b)
        if b.shape[0] != A.shape[0]:
            raise ValueError("Dimension mismatch")
        if b.dtype != np.float64:
            b = b.astype(np.float64)
        return b

    def _call_pardiso(self, A, b):
        self.calls.append(self.phase)
        if self.phase in (11, 12, 13, 22):
            self._lu = sla.splu(A.tocsc())
            if self.phase == 13:
                self.factorized_A = A.copy()
        if self.phase in (13, 33):
            if self._lu is None or self._lu.shape != A.shape:
                raise PyPardisoError("The Pardiso solver failed with error code -1 (solve before factorisation)")
            return self._lu.solve(np.array(b, dtype=float))
        return np.zeros_like(b)

    def free_memory(self, everything=False):
        self._lu = None
        self.factorized_A = sp.csr_matrix((0, 0))


_solver = None


def spsolve(A, b, factorize=True, squeeze=True, solver=None, *_a, **_k):
    s = solver or PyPardisoSolver()
    A = A.tocsr()
    s._check_A(A)
    if factorize and not s._is_already_factorized(A):
        s.factorize(A)
    x = s.solve(A, b)
    return x.squeeze() if squeeze else x


def factorized(A, solver=None):
    s = solver or PyPardisoSolver()
    s.factorize(A.tocsr())
    return lambda b: s.solve(A.tocsr(), b)
