"""C02: nodal time basis: polynomial identity on a grid of times for every order and basis function."""
import numpy as np
import stprob as P
import sympy
from runner import guarded

from dxss.precomp_time_int import basis_in_time

LEVEL = "model_checking"
RULE = ("every order x basis function x {value, derivative} x every time of the grid (more points than the polynomials' degrees, so "
        "agreement is identity for polynomial code), forwards and backwards; a state is (order, function, time), a transition one "
        "evaluation compared with the exact rational polynomial; plus every entry of the precomputed tables re-integrated from the callables")
ASSUMPTIONS = ["evaluations are branch-free between grid times (steps of 1/64 on [-2,3], all nodes and their floating-point neighbours, "
               "and a few far times)"]


def grid(tier):
    step = 64 if tier == "quick" else 1024
    t = [i / step for i in range(-2 * step, 3 * step + 1)]
    for q in (1, 2, 3):
        for i in range(q + 1):
            x = i / q
            t += [x, np.nextafter(x, -9), np.nextafter(x, 9), x - 1e-9, x + 1e-9]
    return [float(v) for v in t] + [-100.0, 57.25, 0, 1, 2, -3, np.int64(1), np.float64(0.3), sympy.Rational(1, 3), sympy.sqrt(6) / 5, sympy.Integer(1)]


def cases(tier, seed):
    return [{"q": q, "tier": tier} for q in range(4)] + [{"tables": [q, s]} for q in range(4) for s in range(4)]


def run_case(case, rec):
    if "tables" in case:
        return tables(rec, *case["tables"])
    q = case["q"]
    if not rec.expect(q in basis_in_time, "missing", f"order {q} missing"):
        return
    val, der = basis_in_time[q]
    rec.expect(len(val) == q + 1 and len(der) == q + 1, "count", f"order {q}: {len(val)} functions, {len(der)} derivatives")
    exact = P.lagrange(q)
    ts = grid(case["tier"])
    for order, times in (("forwards", ts), ("backwards", ts[::-1])):
        for t in times:
            vs = []
            call, t = t, float(t)
            for i in range(q + 1):
                c, d = [float(a) for a in exact[i]], [float(a) for a in P.pdiff(exact[i])]
                scale = 1 + max(abs(a) for a in c) * max(1.0, abs(t)) ** q
                ok, v = guarded(rec, "raises", val[i], call)
                ok2, w = guarded(rec, "raises", der[i], call)
                if not (ok and ok2):
                    return
                v, w = float(v), float(w)
                vs.append(v)
                rec.step(2)
                rec.state(q, i, t)
                rec.expect(abs(v - P.peval(c, t)) <= 1e-12 * scale, f"value:{q}:{i}", f"order {q}, function {i} at t={t!r}: {v}, exact {P.peval(c, t)}")
                rec.expect(abs(w - P.peval(d, t)) <= 1e-11 * scale, f"derivative:{q}:{i}", f"order {q}, derivative of function {i} at t={t!r}: {w}, "
                           f"exact {P.peval(d, t)}")
                if len(rec.failures) > 5:
                    return
            rec.expect(abs(sum(vs) - 1) <= 1e-11 * max(1, abs(t)) ** q, f"partition:{q}", f"order {q}: sum is {sum(vs)} at t={t!r}")
            pts = [j / q for j in range(q + 1)] if q else [0.0]
            for m in range(q + 1):
                got, want = sum(v * p ** m for v, p in zip(vs, pts)), t ** m if q else 1.0
                rec.expect(abs(got - want) <= 1e-11 * max(1, abs(t)) ** q * 10, f"reproduction:{q}:{m}", f"order {q}: interpolant of t^{m} at {t!r} is {got}")
            rec.trace()
    rec.sample({"order": q, "times": len(ts)})


def tables(rec, q, s):
    g, w = np.polynomial.legendre.leggauss(8)
    g, w = (g + 1) / 2, w / 2
    phi, dphi = basis_in_time[q]
    chi, _ = basis_in_time[s]
    fam = {"M_time_q_qstar": (chi, phi), "M_time_q_q": (phi, phi), "M_time_qstar_qstar": (chi, chi), "DM_time_q_qstar": (chi, dphi),
           "DM_time_q_q": (phi, dphi), "DDM_time_q_q": (dphi, dphi)}
    ok, r = guarded(rec, "tables:raises", P._real_elmat, q, s)
    if not ok:
        return
    for name, (rows, cols) in fam.items():
        want = np.array([[sum(wi * a(t) * b(t) for t, wi in zip(g, w)) for b in cols] for a in rows], dtype=float)
        m = np.array(r[name], dtype=float)
        rec.step(m.size)
        rec.state("table", q, s, name)
        rec.expect(m.shape == want.shape and np.abs(m - want).max() < 1e-11 * (1 + np.abs(want).max()), f"tables:{name}",
                   f"{name} for ({q}, {s}) does not integrate the tabulated basis: {m.tolist()} vs {want.tolist()}")
    rec.trace()
