"""Harness for dxss.gmres: operators, captured output, reference restarted GMRES."""
import ctypes
import json
import os
import re
import sys
import tempfile

import numpy as np
import paths

paths.use_repo()
from petsc4py import PETSc  # noqa: E402

from dxss.gmres import get_gmres_solution  # noqa: E402

FREE = True
_libc = ctypes.CDLL(None)
LINE = re.compile(r"iteration\D*(\d+)\D*?residual\D*?([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))", re.I)


class Op:
    """A user operator; fault(number of the application) may raise or return a replacement result."""

    def __init__(self, A, fault=None):
        self.A, self.fault, self.calls = np.asarray(A, dtype=float), fault, 0

    def mult(self, mat, x, y):
        self.calls += 1
        out = self.A @ x.array
        if self.fault is not None:
            r = self.fault(self.calls, out)
            out = out if r is None else r
        y.array[:] = out


class Pre:
    def __init__(self, M, fault=None):
        self.M, self.fault, self.calls = np.asarray(M, dtype=float), fault, 0

    def apply(self, pc, x, y):
        self.calls += 1
        out = self.M @ x.array
        if self.fault is not None:
            r = self.fault(self.calls, out)
            out = out if r is None else r
        y.array[:] = out


def vec(a):
    return PETSc.Vec().createWithArray(np.array(a, dtype=float), comm=PETSc.COMM_SELF)


class Captured:
    """Everything written to file descriptor 1."""

    def __enter__(self):
        sys.stdout.flush()
        _libc.fflush(None)
        self.f = tempfile.TemporaryFile()
        self.saved = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        _libc.fflush(None)
        os.dup2(self.saved, 1)
        os.close(self.saved)
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()

    @property
    def progress(self):
        return [(int(a), float(b)) for a, b in LINE.findall(self.text)]


def free():
    """PETSc 3.19 keeps objects whose Python handles are gone until this is called."""
    PETSc.garbage_cleanup(PETSc.COMM_SELF)
    PETSc.garbage_cleanup(PETSc.COMM_WORLD)


def solve(A, b, M, **kw):
    """Outcome of one solve: dict with x, r (arrays) or error, and the progress lines."""
    if FREE:
        free()
    vb = vec(b)
    out = {"error": None, "b": vb}
    with Captured() as cap:
        try:
            x, r = get_gmres_solution(A if hasattr(A, "mult") else Op(A), vb, M if hasattr(M, "apply") else Pre(M), **kw)
            out["xv"], out["rv"] = x, r
            out["x"], out["r"] = np.array(x.array), np.array(r.array)
        except Exception as e:  # noqa: BLE001
            out["error"] = e
    out["progress"] = cap.progress
    out["text"] = cap.text
    return out


def reference(A, b, M, restart, steps):
    """Preconditioned residual norms and iterates 0..steps of restarted GMRES (left preconditioning, zero guess), evaluated in
    extended precision. After a breakdown with a zero residual the iterate stays."""
    dt = np.longdouble
    A, M, b = (np.asarray(v, dtype=float).astype(dt) for v in (A, M, b))
    n = len(b)
    x = np.zeros(n, dt)

    def norm(v):
        return np.sqrt(v @ v)
    norms, xs = [norm(M @ b)], [x]
    tiny = dt(1e-17)
    while len(norms) <= steps:
        r = M @ (b - A @ x)
        beta = norm(r)
        if beta <= tiny * norms[0]:
            norms.append(norms[-1])
            xs.append(x)
            continue
        V, R, g, rot = [r / beta], [], [beta], []
        stuck = False
        for j in range(restart):
            w = M @ (A @ V[j])
            size = norm(w)
            h = [dt(0)] * (j + 2)
            for _t in range(2):
                for i, v in enumerate(V):
                    c = v @ w
                    h[i] += c
                    w = w - c * v
            h[j + 1] = norm(w)
            breakdown = h[j + 1] <= tiny * 100 * size
            if not breakdown:
                V.append(w / h[j + 1])
            for i, (c, s) in enumerate(rot):
                h[i], h[i + 1] = c * h[i] + s * h[i + 1], -s * h[i] + c * h[i + 1]
            d = np.sqrt(h[j] ** 2 + h[j + 1] ** 2)
            if d <= tiny * 100 * size:
                stuck = True
                break
            c, s = h[j] / d, h[j + 1] / d
            rot.append((c, s))
            h[j] = d
            R.append(h[:j + 1])
            g[j:] = [c * g[j], -s * g[j]]
            y = [dt(0)] * (j + 1)
            for i in range(j, -1, -1):
                y[i] = (g[i] - sum(R[k][i] * y[k] for k in range(i + 1, j + 1))) / R[i][i]
            xs.append(x + sum(y[i] * V[i] for i in range(j + 1)))
            norms.append(norm(M @ (b - A @ xs[-1])))
            if len(norms) > steps or breakdown:
                break
        x = xs[-1]
        if stuck and len(norms) <= steps:
            norms.append(norms[-1])
            xs.append(x)
    return np.array(norms, dtype=float), [np.array(v, dtype=float) for v in xs]


def isolated(f, *args):
    """f(*args) in a forked child (memory that failed solves keep is returned); the result must be JSON-able."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = json.dumps(f(*args)).encode()
            with os.fdopen(wr, "wb") as w:
                w.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as r:
        data = r.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return {"died": status}
    return json.loads(data)
