"""C03: quadrature rules on every interval of a grid, in every order of queries."""
import itertools

import numpy as np
from runner import guarded
import paths

paths.use_repo()
from dxss.precomp_time_int import QuadRule  # noqa: E402

LEVEL = "model_checking"
RULE = ("every rule x interval x monomial up to the degree of exactness (ordinary and centred monomials); then every sequence of "
        "queries over two rules, two intervals, points/weights up to the given depth, each result compared with a fresh rule's; a "
        "state is (rule, interval, monomial) or a query sequence")
ASSUMPTIONS = ["rules tabulated with six digits are judged to 1e-5, the others to 1e-12, relative to the interval"]
# name, points, degree of exactness, tolerance
RULES = ([("Gauss-Radau", 3, 4, 1e-12), ("Gauss-Radau", 4, 6, 1e-5), ("Gauss-Radau", 5, 8, 1e-5), ("Gauss", 1, 1, 1e-12), ("Gauss", 2, 3, 1e-12),
          ("Gauss", 3, 5, 1e-12), ("Newton-Cotes", 2, 1, 1e-12), ("Newton-Cotes", 3, 3, 1e-12), ("Midpoint-Rule", 1, 1, 1e-12)])


def intervals(tier):
    starts = (0.0, 0.25, 1 / 3, 1.0, -2.0, 17.5) + ((-0.75, 1e-3, 3.0, 250.0) if tier != "quick" else ())
    lengths = (1.0, 0.1, 1 / 3, 2.0, 7.0, 1e-3) + ((0.5, 1 / 7, 1e-6, 40.0) if tier != "quick" else ())
    return [(a, a + l) for a in starts for l in lengths] + [(-1.0, 1.0), (0, 1), (0, 2), (-3, 4), (1, 1000), (0.0, 1e-9), (0.0, 1e6), (-1e5, 1e5), (np.float64(0.5), np.float64(0.75)),
                                                             (np.int64(0), np.int64(3)), (1e3, 1e3 + 1e-3), (-5, -2)]


def cases(tier, seed):
    out = [{"rule": i, "tier": tier} for i in range(len(RULES))]
    out += [{"histories": [i, j], "depth": 3 if tier == "quick" else 5} for i in range(len(RULES)) for j in range(len(RULES))]
    return out


def run_case(case, rec):
    if "rule" in case:
        return exactness(rec, case["rule"], case["tier"])
    histories(rec, *case["histories"], case["depth"])


def exactness(rec, i, tier):
    name, n, deg, tol = RULES[i]
    ok, qr = guarded(rec, "construct", QuadRule, name, n)
    if not ok:
        return
    for a, b in intervals(tier):
        ok, r = guarded(rec, "query", lambda: (qr.current_pts(a, b), qr.t_weights(b - a)))
        if not ok:
            return
        pts, ws = [float(p) for p in r[0]], [float(w) for w in r[1]]
        d = f"{name}({n}) on [{a:.4g},{b:.4g}]"
        h = b - a
        eps = 1e-14 * (abs(a) + abs(b)) + 1e-12 * h
        rec.step()
        rec.expect(len(pts) == len(ws) == n, "count", f"{d}: {len(pts)} points, {len(ws)} weights")
        rec.expect(all(a - eps <= p <= b + eps for p in pts), "inside", f"{d}: points {pts}")
        rec.expect(len({round((p - a) / h, 9) for p in pts}) == n, "distinct", f"{d}: points {pts}")
        rec.expect(all(w > 0 for w in ws), "positive", f"{d}: weights {ws}")
        rec.expect(abs(sum(ws) - h) <= max(tol, 1e-12) * h, "sum", f"{d}: weights sum to {sum(ws)}")
        if name == "Gauss-Radau":
            rec.expect(min(abs(p - a) for p in pts) <= eps, "left-end", f"{d}: points {pts}")
        if name == "Newton-Cotes":
            rec.expect(min(abs(p - a) for p in pts) <= eps and min(abs(p - b) for p in pts) <= eps, "ends", f"{d}: points {pts}")
        for m in range(deg + 1):
            rec.state(name, n, a, b, m)
            got = sum(w * (2 * (p - a) / h - 1) ** m for p, w in zip(pts, ws))
            want = h * (1 - (-1) ** (m + 1)) / (2 * (m + 1))
            rec.expect(abs(got - want) <= (tol + 1e-12 * (1 + max(abs(a), abs(b)) / h)) * h, "exactness",
                       f"{d}: integral of the centred monomial of degree {m} is {got}, exact {want}")
            s = max(abs(a), abs(b))
            got = sum(w * (p / s) ** m for p, w in zip(pts, ws))
            want = s * ((b / s) ** (m + 1) - (a / s) ** (m + 1)) / (m + 1)
            rec.expect(abs(got - want) <= (tol + 1e-11) * h + 1e-13 * s, "exactness", f"{d}: integral of t^{m} (scaled) is {got}, exact {want}")
        rec.trace()
        if len(rec.failures) > 5:
            return
    rec.sample({"rule": name, "points": n, "degree": deg})


def histories(rec, i, j, depth):
    (ni, pi, *_), (nj, pj, *_) = RULES[i], RULES[j]
    ivs = ((0.0, 1.0), (2.5, 2.75))

    def letters():
        return [(w, k, iv) for w in (0, 1) for k in ("points", "weights") for iv in (0, 1)]

    def ask(rule, kind, iv):
        a, b = ivs[iv]
        return [float(v) for v in (rule.current_pts(a, b) if kind == "points" else rule.t_weights(b - a))]
    fresh = {}
    for w, k, iv in letters():
        ok, r = guarded(rec, "fresh", lambda: ask(QuadRule(*((ni, pi), (nj, pj))[w]), k, iv))
        if not ok:
            return
        fresh[w, k, iv] = r
    for word in itertools.product(letters(), repeat=depth if depth < 5 else 4):
        rules = [QuadRule(ni, pi), QuadRule(nj, pj)]
        held = []
        for n, (w, k, iv) in enumerate(word):
            r = ask(rules[w], k, iv)
            rec.step()
            held.append(r)
            if not rec.expect(r == fresh[w, k, iv], "history", f"{k} of {RULES[(i, j)[w]][:2]} on {ivs[iv]} after {word[:n]}: {r}, "
                              f"fresh {fresh[w, k, iv]}"):
                return
        rec.expect(all(h == fresh[x] for h, x in zip(held, word)), "held", f"earlier results change in {word}")
        rec.state(i, j, word)
        rec.trace()
