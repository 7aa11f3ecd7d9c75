"""C05: an iterative solve returns only converged solutions: all small systems over a finite set of entries."""
import itertools

import krylov as K
import numpy as np

LEVEL = "model_checking"
RULE = ("every matrix of the given size over the given entries x right-hand side x preconditioner x solver setting; a state is one "
        "input, a transition one solve judged by the preconditioned residual recomputed from the inputs; non-trivial inputs are "
        "nonsingular, singular and non-finite systems (counted separately)")
ASSUMPTIONS = ["serial PETSc 3.19 (real)", "systems of size 1 to 3 over small integers, plus larger structured ones"]

PRES = {
    1: {"id": [[1]], "neg": [[-1]], "zero": [[0]], "half": [[0.5]]},
    2: {"id": [[1, 0], [0, 1]], "swap": [[0, 1], [1, 0]], "tri": [[1, -1], [0, 2]], "sing": [[1, 0], [0, 0]]},
    3: {"id": np.eye(3).tolist(), "cyc": [[0, 1, 0], [0, 0, 1], [1, 0, 0]], "tri": [[1, 0, 0], [1, 2, 0], [0, -1, 1]]},
}
SETTINGS = ({}, {"maxsteps": 1}, {"restart": 1, "maxsteps": 25}, {"reltol": 1e-2, "tol": 0.0}, {"tol": 0.5, "reltol": 0.0}, {"maxsteps": 2})


def cases(tier, seed):
    out = []
    e1 = (-2, -1, 0, 1, 3)
    out.append({"n": 1, "rows": [[x] for x in e1], "first": None})
    e2 = (-1, 0, 1, 2)
    for row in itertools.product(e2, repeat=2):
        out.append({"n": 2, "first": list(row), "entries": list(e2)})
    e3 = (0, 1) if tier == "quick" else (-1, 0, 1)
    for row in itertools.product(e3, repeat=3):
        out.append({"n": 3, "first": list(row), "entries": list(e3)})
    for kind in ("shift", "lap", "diag", "nilp", "nan", "huge", "tiny", "long"):
        out.append({"kind": kind})
    return out


def run_case(case, rec):
    if "kind" in case:
        structured(case["kind"], rec)
        return
    n = case["n"]
    if n == 1:
        mats = [np.array([r], dtype=float) for r in case["rows"]]
        rhss = [[0], [1], [-3]]
    else:
        mats = [np.array([case["first"], *[m[i * n:(i + 1) * n] for i in range(n - 1)]], dtype=float)
                for m in itertools.product(case["entries"], repeat=n * (n - 1))]
        rhss = {2: [[0, 0], [1, 0], [1, -2]], 3: [[1, 0, 0], [1, -1, 2]]}[n]
    for A in mats:
        for b in rhss:
            for pn, M in PRES[n].items():
                for kw in (SETTINGS if n < 3 else SETTINGS[:2]):
                    judge(rec, A, np.array(b, dtype=float), np.array(M, dtype=float), kw, pn)


def singular(A, M):
    B = M @ A
    return bool(np.all(np.isfinite(B))) and np.linalg.matrix_rank(B) < len(B)


def judge(rec, A, b, M, kw, pn, expect=None):
    n = len(b)
    o = K.solve(A, b, M, printrates=False, **kw)
    rec.step()
    rec.state(A.tolist() if n <= 3 else (n, float(np.nansum(A))), b.tolist() if n <= 3 else n, pn, str(kw))
    desc = f"A={A.tolist() if n <= 3 else 'n=%d' % n} b={b.tolist() if n <= 3 else ''} M={pn} {kw}"
    target = max(kw.get("tol", 1e-12), kw.get("reltol", 1e-7) * np.linalg.norm(M @ b))
    if o["error"] is not None:
        if not isinstance(o["error"], K.PETSc.Error):
            rec.fail("error-type", f"raised {o['error']!r} instead of a solver error; {desc}")
            return
        rec.count("raised")
        PA = M @ A
        if np.all(np.isfinite(PA)) and np.all(np.isfinite(b)) and expect != "raise":
            s = np.linalg.svd(PA, compute_uv=False)
            steps = kw.get("maxsteps", 100)
            if s[-1] > 1e-9 * s[0] and s[0] > 0 and steps >= n and kw.get("restart", 1000) >= n:
                # the projection of the solution onto the Krylov space of dimension n is exact
                if min(kw.get("tol", 1e-12), 1) > 0 or kw.get("reltol", 1e-7) >= 1e-12:
                    rec.fail("refused", f"raised {o['error']} for a nonsingular system with enough iterations; {desc}")
        return
    rec.trace()
    rec.count("returned")
    x = o["x"]
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(o["r"]))):
        rec.fail("non-finite", f"returned a non-finite vector; {desc}", x=x)
        return
    with np.errstate(all="ignore"):
        res = np.linalg.norm(M @ (b - A @ x))
        noise = 1e-13 * np.linalg.norm(np.abs(M) @ (np.abs(A) @ np.abs(x) + np.abs(b)))
    if not res <= target * (1 + 1e-6) + noise:
        rec.fail("singular" if singular(A, M) else "unconverged", f"returned a vector with preconditioned residual {res:.3e} above {target:.3e}; {desc}", x=x)
    if expect == "raise":
        rec.fail("singular" if singular(A, M) else "no-error", f"returned a solution of a system that cannot be solved; {desc}", x=x)
    if rec.transitions % 997 == 1:
        rec.sample({"input": desc, "residual": float(res), "target": float(target)})


def structured(kind, rec):
    if kind == "shift":       # GMRES makes no progress before step n
        for n in (5, 20, 31, 60, 99, 100, 101, 120):
            A = np.roll(np.eye(n), 1, axis=0)
            b = np.eye(n)[0]
            for steps in (n - 1, n, n + 5, None):
                kw = {} if steps is None else {"maxsteps": steps}
                judge(rec, A, b, np.eye(n), kw, "id", "raise" if (steps or 100) < n else None)
    elif kind == "long":      # short cycles make no progress, however many there are
        for n in (4, 8):
            A = np.roll(np.eye(n), 1, axis=0)
            for steps in (50, 150, 501, 1200, 3000, 12000):
                judge(rec, A, np.eye(n)[0], np.eye(n), {"maxsteps": steps, "restart": 3}, "id", "raise")
    elif kind == "lap":
        for n in (4, 16, 40):
            A = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
            for b in (np.ones(n), np.eye(n)[0], np.cos(np.arange(n))):
                for steps in (1, 2, 3, n // 2, n, 100):
                    for rt in (1e-2, 1e-7, 1e-10):
                        judge(rec, A, b, np.eye(n), {"maxsteps": steps, "reltol": rt}, "id")
    elif kind == "diag":
        for n in (3, 10, 50):
            for p in (0, 1, 2, 4):
                d = np.linspace(1, 10, n) ** p
                for M in (np.eye(n), np.diag(1 / d), np.diag(-1 / d)):
                    judge(rec, np.diag(d), np.ones(n), M, {"maxsteps": n}, f"{M[0, 0]:.3g}")
    elif kind == "nilp":      # singular inconsistent
        for n in (2, 3, 6, 20):
            N = np.eye(n, k=1)
            judge(rec, N, np.eye(n)[-1], np.eye(n), {}, "id", "raise")
            judge(rec, np.zeros((n, n)), np.ones(n), np.eye(n), {}, "id", "raise")
            judge(rec, np.ones((n, n)), np.eye(n)[0], np.eye(n), {}, "id", "raise")
            D = np.diag(np.r_[np.arange(1, n), 0.0])
            judge(rec, D, np.ones(n), np.eye(n), {}, "id", "raise")
            judge(rec, D, np.r_[np.ones(n - 1), 0.0], np.eye(n), {}, "id")
    elif kind == "nan":
        for bad in (np.nan, np.inf, -np.inf):
            for i in range(3):
                b = np.ones(3)
                b[i] = bad
                judge(rec, np.diag([1.0, 2, 3]), b, np.eye(3), {}, "id", "raise")
                for j in range(3):
                    A = np.eye(3) + 0.5 * np.ones((3, 3))
                    A[i, j] = bad
                    judge(rec, A, np.ones(3), np.eye(3), {}, "id", "raise")
                    M = np.eye(3) + 0.25 * np.ones((3, 3))
                    M[i, j] = bad
                    judge(rec, np.diag([1.0, 2, 3]), np.ones(3), M, {}, "id", "raise")
    else:
        s = 1e150 if kind == "huge" else 1e-150
        for n in (2, 4):
            A = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1)
            judge(rec, A * (s if kind == "huge" else 1.0), np.ones(n) * s, np.eye(n), {"tol": 0.0}, "id")
            judge(rec, A, np.ones(n) * (1e-9 if kind == "tiny" else 1e9), np.eye(n), {}, "id")
            judge(rec, A, np.ones(n) * 1e-13, np.eye(n), {}, "id")
