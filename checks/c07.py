"""C07: true residual, untouched inputs, fresh outputs."""
import itertools

import krylov as K
import numpy as np
import c06

LEVEL = "model_checking"
RULE = ("every operator family x preconditioner x right-hand side x tolerance x restart, in every sequence of two consecutive solves with "
        "the results of the first being overwritten in between; systems of up to 1000 unknowns; a state is (input, position), a transition one solve checked")
ASSUMPTIONS = ["serial PETSc 3.19 (real)"]


def cases(tier, seed):
    return [{"fam": f, "pre": p} for f in c06.FAM for p in ("id", "jacobi", "tri")] + [{"size": n} for n in (100, 300, 1000)]


def large(n, case, rec):
    A = np.diag(np.linspace(1, 4, n)) + 0.3 * np.eye(n, k=1)
    for M in (np.eye(n), np.diag(1 / np.diag(A))):
        for b in (np.cos(np.arange(n)), 1e-3 * np.ones(n), np.eye(n)[n // 2]):
            for kw in ({"reltol": 0.1}, {"reltol": 1e-7}, {"reltol": 1e-11, "maxsteps": 300}, {"reltol": 1e-6, "restart": 10, "maxsteps": 500}):
                check(rec, A, b, M, kw, K.solve(A, b, M, printrates=False, **kw), case, ())


def run_case(case, rec):
    if "size" in case:
        large(case["size"], case, rec)
        return
    A = c06.FAM[case["fam"]]
    n = len(A)
    M = c06.pres(A)[case["pre"]]
    inputs = [(b, {"reltol": rt, **({"restart": r} if r else {}), "maxsteps": 400})
              for b in (np.ones(n), np.cos(np.arange(n)) * 1e3, np.zeros(n)) for rt in (0.5, 1e-3, 1e-7) for r in (None, 4)]
    inputs += [(1e-13 * np.sin(2.0 + np.arange(n)), {"reltol": 1e-3, "tol": 0.0, "maxsteps": 400}), (1e11 * np.ones(n), {"reltol": 1e-5, "maxsteps": 400}),
               (np.ones(n), {"tol": 1e9}), (np.eye(n)[0], {"reltol": 0.999})]
    if case["fam"] == "shift7":
        inputs = [(b, kw) for b, kw in inputs if "restart" not in kw]
    alone = []
    for b, kw in inputs:
        o = K.solve(A, b, M, printrates=False, **kw)
        if o["error"] is not None:
            if case["fam"] == "wide45" and "restart" in kw or kw.get("restart"):
                alone.append(None)   # restarted GMRES may stagnate
                continue
            rec.fail("raises", f"raised {o['error']!r}: {case} {kw}")
            return
        check(rec, A, b, M, kw, o, case, ())
        alone.append((o["x"], o["r"]))
    for (i, (b1, k1)), (j, (b2, k2)) in itertools.product(enumerate(inputs), enumerate(inputs)):
        if alone[i] is None or alone[j] is None or (n > 40 and (i + j) % 3):
            continue
        a = K.solve(A, b1, M, printrates=False, **k1)
        x1, r1 = np.array(a["x"]), np.array(a["r"])
        c = K.solve(A, b2, M, printrates=False, **k2)
        check(rec, A, b2, M, k2, c, case, (i,))
        if not rec.expect(np.array_equal(a["xv"].array, x1) and np.array_equal(a["rv"].array, r1), "alias-earlier",
                          f"a second solve changed the results of the first one: {case} {k1} then {k2}"):
            return
        c["xv"].array[:] = 7.0
        c["rv"].array[:] = -7.0
        ok = np.array_equal(c["b"].array, b2) and np.array_equal(a["xv"].array, x1) and np.array_equal(a["rv"].array, r1)
        if not rec.expect(ok, "alias-results", f"overwriting returned vectors changes the right-hand side or other results: {case}"):
            return
        b3 = c["b"]
        b3.array[:] = 5.0
        rec.expect(np.all(c["xv"].array == 7.0) and np.all(c["rv"].array == -7.0), "alias-rhs", f"results alias the right-hand side: {case}")
        x4 = c["xv"]
        x4.array[:] = 1.0
        rec.expect(np.all(c["rv"].array == -7.0), "alias-each-other", f"solution and residual alias each other: {case}")
    rec.sample({"case": case, "inputs": len(inputs), "residual": float(np.linalg.norm(alone[0][1]))})


def check(rec, A, b, M, kw, o, case, history):
    rec.step()
    rec.trace()
    rec.state(str(case), b.tolist(), str(kw), history)
    if o["error"] is not None:
        rec.fail("raises", f"raised {o['error']!r}: {case} {kw}")
        return
    true = b - A @ o["x"]
    noise = 1e-12 * (np.abs(A) @ np.abs(o["x"]) + np.abs(b)).max()
    d = np.abs(o["r"] - true).max()
    rec.expect(d <= noise + 1e-9 * np.abs(true).max(), "residual", f"second result differs from the true residual by {d:.2e} "
               f"(norm {np.linalg.norm(true):.2e}): {case} {kw}")
    rec.expect(np.array_equal(o["b"].array, b), "rhs-changed", f"right-hand side changed: {case} {kw}")
