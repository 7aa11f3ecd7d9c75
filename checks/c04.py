"""C04: jump-lifting function."""
import numpy as np
import sympy
from runner import guarded
import paths

paths.use_repo()
from dxss.precomp_time_int import d_theta_ref, theta_ref  # noqa: E402

LEVEL = "model_checking"
RULE = ("the lifting function and its derivative at every time of a grid far larger than the polynomial degree, evaluated forwards, backwards and "
        "repeatedly; a state is a time, a transition one evaluation")
ASSUMPTIONS = ["the functions are polynomials between the grid times (steps of 1/256 on [-3,3] and the neighbours of the nodes)"]


def times(tier):
    n = 256 if tier == "quick" else 8192
    t = [i / n for i in range(-3 * n, 3 * n + 1)]
    for x in (-1.0, 0.0, 1.0):
        t += [float(np.nextafter(x, -9)), float(np.nextafter(x, 9)), x + 1e-10, x - 1e-10]
    return t + [2, -2, np.int64(3), np.float64(-0.3), sympy.Rational(1, 3), sympy.sqrt(6) / 5]


def cases(tier, seed):
    return [{"tier": tier, "reverse": r} for r in (False, True)]


def run_case(case, rec):
    ts = times(case["tier"])
    ts = ts[::-1] if case["reverse"] else ts
    for x, want in ((-1.0, 1.0), (0.0, 0.0), (1.0, 0.0), (-1, 1), (0, 0), (1, 0)):
        ok, v = guarded(rec, "raises", theta_ref, x)
        rec.step()
        rec.expect(ok and abs(v - want) <= 1e-14, f"node:{x}", f"lifting function is {v} at {x!r} instead of {want}")
    vals = {}
    for t in ts:
        ok, v = guarded(rec, "raises", theta_ref, t)
        ok2, d = guarded(rec, "raises", d_theta_ref, t)
        if not (ok and ok2):
            return
        vals[t] = (float(v), float(d))
        v, d, t = float(v), float(d), float(t)
        rec.step(2)
        rec.state(t)
        # the quadratic through the three nodes
        if not rec.expect(abs(v - t * (t - 1) / 2) <= 1e-13 * (1 + t * t), "value", f"lifting function at {t!r} is {v}, expected {t * (t - 1) / 2}"):
            return
        if not rec.expect(abs(d - (t - 0.5)) <= 1e-13 * (1 + abs(t)), "derivative", f"derivative at {t!r} is {d}, the function's derivative is {t - 0.5}"):
            return
        rec.trace()
    for t in ts[::7]:
        rec.expect((float(theta_ref(t)), float(d_theta_ref(t))) == vals[t], "history", f"a second evaluation at {t!r} differs")
    rec.sample({"times": len(ts)})
