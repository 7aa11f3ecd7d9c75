"""C30: manufactured solutions and data-domain indicators of the drivers."""
import itertools
import math

import drivers as D
import forktree
import numpy as np

LEVEL = "model_checking"
RULE = ("every driver (and its alternative data domains) x every point of grids that contain all region boundaries and their floating-point "
        "neighbours (indicators), x every array of up to 4 points with all membership patterns, contiguous and strided; solutions: every "
        "point of a space-time grid, more points per variable than a band-limited function of the driver's frequencies can vanish on; a "
        "state is (driver, point), a transition one comparison")
ASSUMPTIONS = ["points inside the closed computational domain", "data domains given as symbolic conditions (no fitted mesh) are compared away from "
               "their boundary", "solutions are evaluated by UFL's own evaluation of the expressions"]
TIMEOUT = 300


def cases(tier, seed):
    n = 6 if tier == "quick" else 12
    out = [{"dim": 1, "ov": {"N": 1}, "k": {"max_interval": 2}, "grid": n}, {"dim": 2, "ov": {"REF_LVL": 0, "ORDER": 1}, "k": {"patch": "coarse"}, "grid": n}]
    for r in (0, 1):
        for g in (False, True):
            out.append({"dim": 3, "ov": {"REF_LVL": r, "GCC": g}, "k": {"max_box": 2}, "grid": n - 1 if tier == "quick" else 9})
    return out


def near(v):
    return [np.nextafter(v, -1), v, np.nextafter(v, 2)]


def axis(dim):
    marks = {1: (0.2, 0.8), 2: (0.2, 0.8), 3: (0.25, 0.75)}[dim]
    vals = [0.0, np.nextafter(0.0, 1), np.nextafter(1.0, 0), 1.0, 0.5, 0.1, 0.9]
    for m in marks:
        vals += near(m)
    return sorted(set(vals))


def regions(dim, ov):
    """name -> membership of a point (exact comparisons)."""
    lo, hi = (0.2, 0.8) if dim < 3 else (0.25, 0.75)
    ring = lambda p: any(c <= lo or c >= hi for c in p)  # noqa: E731
    left = lambda p: p[0] <= lo  # noqa: E731
    if dim == 1:
        return {"omega_ind_convex": ring, "omega_ind_nogcc": left}
    if dim == 2:
        return {"omega_ind_convex": ring}
    return {"omega_ind": ring if ov.get("GCC") else left}


def body(case):
    m, found = D.load(case["dim"], case["ov"], **case["k"])
    fails, states, steps = [], [], 0
    dim = case["dim"]
    if dim == 3 and found >= {"GCC", "REF_LVL"} or dim < 3:
        for name, member in regions(dim, case["ov"]).items():
            f, s, n = indicator(dim, name, getattr(m, name), member)
            fails += f
            states += s
            steps += n
    f, s, n = solution(dim, m, case["grid"])
    return fails + f, states + s, steps + n


def indicator(dim, name, ind, member):
    fails, states, steps = [], [], 0
    pts = list(itertools.product(axis(dim), repeat=dim))
    who = f"{name} of solve_{dim}d"
    if not callable(ind) or hasattr(ind, "ufl_operands"):
        for p in pts:
            if any(abs(c - b) < 1e-12 for c in p for b in (0.25, 0.75)):
                continue
            states.append((dim, name, p))
            steps += 1
            if float(ind(p)) != float(member(p)):
                fails.append(("indicator", f"{who} is {float(ind(p))} at {p}"))
        return fails[:3], states, steps
    want = np.array([1.0 if member(p) else 0.0 for p in pts])

    def check(rows, expect, what):
        nonlocal steps
        steps += 1
        before = rows.copy()
        got = np.asarray(ind(rows))
        if got.shape != (rows.shape[1],) or not np.issubdtype(got.dtype, np.number):
            fails.append(("indicator", f"{who} returns an array of shape {got.shape} and type {got.dtype} for {what}"))
        elif not np.array_equal(got, expect):
            i = int(np.nonzero(got != expect)[0][0])
            fails.append(("indicator", f"{who} is {got[i]} at {rows[:dim, i].tolist()} ({what}, point {i})"))
        if not np.array_equal(before, rows):
            fails.append(("indicator", f"{who} alters its argument"))
    X = np.zeros((3, len(pts)))
    X[:dim] = np.array(pts).T
    check(X, want, "all points")
    check(X[:, ::-1], want[::-1], "all points, strided")
    check(np.asfortranarray(X), want, "all points, by columns")
    check(X[:dim], want, "all points, as many rows as dimensions")
    for i, p in enumerate(pts):
        states.append((dim, name, p))
        check(X[:, i:i + 1], want[i:i + 1], "one point")
    inside = [i for i in range(len(pts)) if want[i]]
    outside = [i for i in range(len(pts)) if not want[i]]
    for n in range(5):
        for pattern in itertools.product((True, False), repeat=n):
            for shift in range(3):
                idx = [(inside if b else outside)[(j * 7 + shift * 5) % len(inside if b else outside)] for j, b in enumerate(pattern)]
                states.append((dim, name, "pattern", pattern, shift))
                check(X[:, idx], want[idx], f"pattern {pattern}")
        if len(fails) > 3:
            break
    return fails[:3], states, steps


def solution(dim, m, n):
    import ufl
    from ufl.algorithms import expand_derivatives
    cell = {1: ufl.interval, 2: ufl.triangle, 3: ufl.tetrahedron}[dim]
    x = ufl.SpatialCoordinate(ufl.Mesh(ufl.VectorElement("Lagrange", cell, 1, dim=dim)))
    tc = ufl.Constant(ufl.Mesh(ufl.VectorElement("Lagrange", cell, 1, dim=dim)))
    t = ufl.variable(tc)
    u, v = m.sample_sol(t, x), m.dt_sample_sol(t, x)
    ut = ufl.diff(u, t)
    exprs = {"wave equation": ufl.diff(ut, t) - ufl.div(ufl.grad(u)), "time derivative": v - ut, "solution": u}
    exprs = {k: expand_derivatives(e) for k, e in exprs.items()}
    fails, states, steps = [], [], 0
    top, biggest = max(abs(float(getattr(m, "T", 1.0))), 1.0), 0.0
    times = [top * j / n for j in range(n + 1)] + [0.3]
    space = [j / n for j in range(n + 1)] + [0.29]
    who = f"solution of solve_{dim}d"
    for tv in times:
        for p in itertools.product(space, repeat=dim):
            states.append((dim, "solution", tv, p))
            val = {k: float(e(p, {tc: tv})) for k, e in exprs.items()}
            steps += 3
            biggest = max(biggest, abs(val["solution"]))
            for k in ("wave equation", "time derivative"):
                if not abs(val[k]) < 1e-10 * 100:
                    fails.append((k, f"{who}: {k} violated by {val[k]:.2e} at t={tv}, x={p}"))
            if any(c in (0.0, 1.0) for c in p) and not abs(val["solution"]) < 1e-12:
                fails.append(("boundary", f"{who} is {val['solution']:.2e} at the boundary point {p}, t={tv}"))
            # the same functions of plain numbers (how the drivers' plots and errors use them)
            if len(fails) > 3:
                return fails, states, steps
    if biggest < 0.5:
        fails.append(("trivial", f"{who} vanishes"))
    return fails, states, steps


def run_case(case, rec):
    try:
        fails, states, steps = forktree.branch(body, case)
    except forktree.Died as e:
        if "/src/dxss/" in str(e) and "Unsupported" not in str(e):
            rec.fail("raises", f"solve_{case['dim']}d {case['ov']}: {str(e)[-1200:]}")
            return
        raise
    for key, msg in fails:
        rec.fail(f"{key}:{case['dim']}d", msg)
    for s in states:
        rec.state(str(case["ov"]), *s)
    rec.step(steps)
    rec.trace(steps)
    rec.sample({"driver": case["dim"], "settings": case["ov"], "comparisons": steps})
