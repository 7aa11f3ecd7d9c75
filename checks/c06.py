"""C06: iteration limit, tolerances, restart and reporting, against exact restarted GMRES."""
import itertools

import krylov as K
import numpy as np

LEVEL = "model_checking"
RULE = ("every operator family x preconditioner x right-hand side scale x step limit x restart length x absolute tolerance x relative "
        "tolerance x reporting within the bounds; the reference model is restarted GMRES from a zero guess in exact least-squares "
        "form; a state is one input, a transition one iterate compared with the model")
ASSUMPTIONS = ["serial PETSc 3.19 (real)", "inputs whose model residual lies within 0.1 % (or the model's own sensitivity to rounding) of the threshold at some iterate are skipped",
               "progress lines are compared to the two printed decimals"]


def families():
    out = {}
    n = 6
    out["bidiag"] = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1)
    out["lap12"] = 2 * np.eye(12) - np.eye(12, k=1) - np.eye(12, k=-1)
    i = np.arange(9)
    out["dense9"] = np.eye(9) * 4 + np.cos(1.1 * np.add.outer(i, 2 * i))
    out["shift7"] = np.roll(np.eye(7), 1, axis=0)
    m = 45   # needs more steps than PETSc's own default restart
    out["wide45"] = np.diag(np.linspace(1.0, 30.0, m)) + 0.5 * np.eye(m, k=1)
    return out


FAM = families()


def pres(A):
    n = len(A)
    d = np.diag(A).copy()
    d[d == 0] = 1.0
    return {"id": np.eye(n), "jacobi": np.diag(1 / d), "tri": np.linalg.inv(np.tril(A) + 0.5 * np.eye(n))}


def cases(tier, seed):
    out = []
    for fam in FAM:
        for pn in ("id", "jacobi", "tri"):
            out.append({"fam": fam, "pre": pn, "tier": tier})
    out.append({"defaults": True})
    # many steps before a restart: a cyclic shift converges at the last step of a cycle of full length, and never with shorter ones
    for n in (70, 130, 260) if tier == "quick" else (70, 130, 260, 520, 1050):
        out.append({"long": n})
    return out


def model(A, b, M, restart, steps):
    """Norms and iterates of the reference, and how much the norms react to a relative perturbation at rounding level."""
    norms, xs = K.reference(A, b, M, restart, steps)
    i = np.arange(len(b))
    other, _ = K.reference(A, b * (1 + 2e-16 * np.cos(3 * i + 1)) + 1e-16 * np.max(np.abs(b)) * np.sin(2 * i), M, restart, steps)
    return norms, xs, 100 * np.abs(norms - other)


def run_case(case, rec):
    if case.get("defaults"):
        defaults(rec)
        return
    if "long" in case:
        n = case["long"]
        A, b = np.roll(np.eye(n), 1, axis=0), np.eye(n)[0]
        for r in (None, n, n - 1, n // 2, 2 * n):
            top = n + 10
            # in closed form: the residual norm is one until a cycle of n steps is complete
            solved = (1000 if r is None else r) >= n
            norms, xs = np.ones(top + 1), np.zeros((top + 1, n))
            if solved:
                norms[n:] = 0.0
                xs[n:] = np.roll(b, -1)
            for ms in (n // 2, n - 1, n, top):
                kw = {"maxsteps": ms, **({} if r is None else {"restart": r})}
                one(rec, A, b, np.eye(n), kw, norms, xs, 1e-9 * np.ones(top + 1), f"shift{n}/id/e0")
        return
    A = FAM[case["fam"]]
    n = len(A)
    M = pres(A)[case["pre"]]
    quick = case["tier"] == "quick"
    rhs = {"ones": np.ones(n), "e0": np.eye(n)[0]} if n < 40 else {"ones": np.ones(n)}
    steps = (None, 0, 1, 2, 3, 5, n - 1, n, 60) if n < 40 else (None, 5, 30, 31, 44, 60)
    restarts = (None, 1, 2, 3, 5, 30) if n < 40 else (None, 4, 30, 31)
    tols = ((None, None), (None, 1e-3), (1e-3, None), (1e-2, 0.0), (0.0, 1e-2), (0.0, 1e-9), (0.0, 0.0), (1e9, None), (None, 0.3), (1e-30, 1e-4))
    if quick and n < 40:
        steps = (None, 0, 1, 3, n, 60)
    for (bn, b0), scale in itertools.product(rhs.items(), (1.0, 1e-8, 1e4)):
        b = b0 * scale
        for r in restarts:
            # one long reference run per restart length
            top = 105
            norms, xs, sens = model(A, b, M, r or 1000, top)
            for (tol, rt), ms in itertools.product(tols, steps):
                if quick and scale != 1.0 and (r in (2, 5) or ms in (0, 3)):
                    continue
                kw = {k: v for k, v in (("maxsteps", ms), ("restart", r), ("tol", tol), ("reltol", rt)) if v is not None}
                one(rec, A, b, M, kw, norms, xs, sens, f"{case['fam']}/{case['pre']}/{bn}*{scale:g}")


def one(rec, A, b, M, kw, norms, xs, sens, desc):
    n = len(b)
    limit = kw.get("maxsteps", 100)
    target = max(kw.get("tol", 1e-12), kw.get("reltol", 1e-7) * norms[0])
    floor = 1e-13 * norms[0]
    window = norms[:limit + 1]
    # rounding decides where the exact residual is (almost) zero or close to the threshold
    if target < 50 * floor and np.any(window < 100 * floor):
        rec.count("skipped_rounding")
        return
    if np.any(np.abs(window - target) < 1e-3 * target + sens[:limit + 1]):
        rec.count("skipped_threshold")
        return
    hit = np.nonzero(window <= target)[0]
    k = int(hit[0]) if len(hit) else None
    # a breakdown before the threshold is reached
    rec.state(desc, str(sorted(kw.items())))
    desc = f"{desc} {kw}"
    for report in (True, False):
        op, pre = K.Op(A), K.Pre(M)
        args = dict(kw)
        if not report or len(rec.states) % 2:
            args["printrates"] = report   # the default is reporting
        o = K.solve(op, b, pre, **args)
        rec.step(max(1, (limit if k is None else k)))
        rec.trace()
        if k is None:
            if o["error"] is None:
                rec.fail("limit", f"returned a solution although no iterate up to step {limit} meets {target:.2e}; {desc}")
                return
            last = limit
        else:
            if o["error"] is not None:
                rec.fail("refused", f"raised {o['error']} although iterate {k} meets the criterion {target:.2e}; {desc}")
                return
            last = k
            d = np.linalg.norm(o["x"] - xs[k])
            ok = d <= 1e-6 * np.linalg.norm(xs[k]) + 1e-9 * np.linalg.norm(o["x"])
            if not ok and norms[k] > 1e-9 * norms[0]:
                rec.fail("iterate", f"returned vector is not GMRES iterate {k} (relative difference {d / max(np.linalg.norm(xs[k]), 1e-300):.1e}); {desc}")
                return
        if report:
            got = o["progress"]
            if [g[0] for g in got] != list(range(last + 1)):
                rec.fail("lines", f"progress lines for iterations {[g[0] for g in got][:20]} instead of 0..{last}; {desc}")
                return
            for (i, v) in got:
                w = norms[i]
                if abs(v - w) > 0.0051 * 10 ** np.floor(np.log10(max(w, 1e-300))) * 1.05 + 1e-4 * w + sens[i] + 20 * floor:
                    rec.fail("norms", f"progress line {i} reports {v:.3e}, residual norm is {w:.3e}; {desc}")
                    return
        elif o["progress"]:
            rec.fail("silent", f"prints {len(o['progress'])} progress lines although reporting is off; {desc}")
            return
        # the operator is applied once per step, once per cycle for the residual and once for the returned residual
        cycles = -(-max(last, 1) // min(kw.get("restart", 1000), 10**6)) + 1
        if op.calls > last + cycles + 3:
            rec.fail("effort", f"{op.calls} operator applications for {last} steps; {desc}")
            return
    if rec.traces % 501 == 1:
        rec.sample({"input": desc, "stops_at": k, "target": float(target)})


def defaults(rec):
    """Default limit 100, default restart at least as long as the default limit, default tolerances."""
    for n in (99, 100, 101, 130):
        A, b = np.roll(np.eye(n), 1, axis=0), np.eye(n)[0]
        for kw in ({}, {"maxsteps": n}, {"maxsteps": n - 1}):
            o = K.solve(A, b, np.eye(n), **kw)
            rec.step()
            rec.trace()
            rec.state("shift", n, str(kw))
            limit = kw.get("maxsteps", 100)
            good = (o["error"] is None) == (limit >= n)
            rec.expect(good, "default-limit", f"cyclic shift of size {n} with {kw}: {o['error'] or 'returned'}")
            want = list(range(min(limit, n) + 1))
            rec.expect([p[0] for p in o["progress"]] == want, "default-lines", f"cyclic shift of size {n} with {kw}: "
                       f"{len(o['progress'])} progress lines instead of {len(want)}")
    # default absolute tolerance 1e-12 and relative tolerance 1e-7
    n = 30
    A = np.diag(np.linspace(1.0, 8.0, n))
    for scale in (1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13):
        b = np.ones(n) * scale
        norms, xs, sens = model(A, b, np.eye(n), 1000, 31)
        one(rec, A, b, np.eye(n), {}, norms, xs, sens, f"defaults*{scale:g}")
