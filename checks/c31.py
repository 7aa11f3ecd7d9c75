"""C31: matrices handed to SciPy are the matrices."""
import itertools

import numpy as np
import paths
import stprob as P  # noqa: F401  (loads the stand-in)
from petsc4py import PETSc
from runner import guarded

from dxss.space_time import get_sparse_matrix

LEVEL = "model_checking"
RULE = ("every sparsity pattern of matrices up to a size (rectangular ones and empty rows and columns included) x every way of storing its entries "
        "(stored zeros, insertion in any of several orders, accumulated contributions, entries that differ by hundreds of orders of magnitude) x export histories (export, change the matrix, export again, "
        "alter the export); some matrices with up to 210000 entries; a state is (shape, stored pattern, history position), a transition one export")
ASSUMPTIONS = ["sequential PETSc AIJ matrices"]


def shapes(tier):
    top = 9 if tier == "quick" else 12
    return [(m, n) for m in range(1, 5) for n in range(1, 5) if m * n <= top]


def cases(tier, seed):
    out = [{"shape": s, "part": 0, "parts": 1} for s in shapes(tier)]
    if tier != "quick":
        out += [{"shape": (4, 4), "part": i, "parts": 8} for i in range(8)]
    return out + [{"large": s} for s in ((300, 300, 1), (70000, 3, 1), (3, 70000, 1), (66000, 66000, 1009), (1, 300, 1), (400, 1, 1))]


def large(case, rec):
    m, n, stride = case["large"]
    A = PETSc.Mat().createAIJ([m, n], nnz=min(n, 70000) if m * n < 1e6 else 2, comm=PETSc.COMM_SELF)
    i = np.repeat(np.arange(m), n) if m * n < 1e6 else np.repeat(np.arange(m), 2)
    j = np.tile(np.arange(n), m) if m * n < 1e6 else (i * stride + np.tile([0, 7], m)) % n
    v = 1.0 + np.arange(len(i)) % 977
    for k in range(len(i)):
        A.setValue(int(i[k]), int(j[k]), v[k])
    A.assemble()
    ok, S = guarded(rec, "raises", get_sparse_matrix, A)
    rec.step()
    rec.state(m, n)
    if ok and rec.expect(S.shape == (m, n), "export:shape", f"{m} x {n} matrix: exported with shape {S.shape}"):
        S = S.tocoo()
        o, p = np.lexsort((S.col, S.row)), np.lexsort((j, i))
        good = len(o) == len(p) and np.array_equal(S.row[o], i[p]) and np.array_equal(S.col[o], j[p]) and np.array_equal(S.data[o], v[p])
        rec.expect(good, "export:values", f"{m} x {n} matrix with {len(i)} entries: exported with other entries")
    rec.trace()


SPREAD = (1.0, 1e-17, 1e-9, 1e6, -1e-300, 0.1, 1e15, 5e-324, 1e300)


def build(m, n, entries, variant):
    A = PETSc.Mat().createAIJ([m, n], nnz=n, comm=PETSc.COMM_SELF)
    if variant >= 4:      # entries of very different size
        entries = [(i, j, SPREAD[(5 * i + 7 * j + variant) % 9]) for i, j, _ in entries]
    if variant == 1:
        entries = entries[::-1]
    for i, j, v in entries:
        if variant == 2:
            A.setValue(i, j, v - 1.0, addv=PETSc.InsertMode.ADD_VALUES)
            A.setValue(i, j, 1.0, addv=PETSc.InsertMode.ADD_VALUES)
        elif variant == 3 and (i + j) % 2:
            A.setValue(i, j, 0.0)
        else:
            A.setValue(i, j, v)
    A.assemble()
    want = np.zeros((m, n))
    for i, j, v in entries:
        want[i, j] = 0.0 if variant == 3 and (i + j) % 2 else v
    return A, want


def compare(rec, S, want, who, key):
    ok = rec.expect(S.shape == want.shape, f"{key}:shape", f"{who}: exported with shape {S.shape} instead of {want.shape}")
    return ok and rec.expect(np.array_equal(S.toarray(), want), f"{key}:values", f"{who}: exported as {S.toarray().tolist()} instead of {want.tolist()}")


def run_case(case, rec):
    if "large" in case:
        large(case, rec)
        return
    m, n = case["shape"]
    cells = list(itertools.product(range(m), range(n)))
    for bits in range(case["part"], 1 << (m * n), case["parts"]):
        for variant in range(6):
            entries = [(i, j, (1.0 + i + 10 * j) * (-1) ** (i * j)) for b, (i, j) in enumerate(cells) if bits >> b & 1]
            A, want = build(m, n, entries, variant)
            who = f"{m} x {n} matrix {want.tolist()} (pattern {bits:b}, storage {variant})"
            rec.state(m, n, bits, variant)
            ok, S = guarded(rec, "raises", get_sparse_matrix, A)
            rec.step()
            if not ok or not compare(rec, S, want, who, "export"):
                return
            if entries:
                i, j, v = entries[-1]
                A.setValue(i, j, 77.0)
                A.assemble()
                new = want.copy()
                new[i, j] = 77.0
                ok, S2 = guarded(rec, "raises", get_sparse_matrix, A)
                rec.step()
                if not ok or not compare(rec, S2, new, f"{who}, one entry changed", "again") or not compare(rec, S, want, f"{who}, first export", "alias"):
                    return
                S2.data[:] = 5.0
                dense = np.array([[A.getValue(a, b) for b in range(n)] for a in range(m)])
                if not rec.expect(np.array_equal(dense, new), "written", f"{who}: altering the export altered the matrix"):
                    return
            rec.trace()
            A.destroy()
    rec.sample({"shape": case["shape"], "patterns": 1 << (m * n)})
