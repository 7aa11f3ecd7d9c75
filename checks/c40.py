"""C40: unsupported orders, rules and incomplete problem data are refused."""
import itertools

import numpy as np
import stprob as P
from dolfinx import _env

from dxss.precomp_time_int import QuadRule, basis_in_time

LEVEL = "model_checking"
RULE = ("every pair of time orders from -2 to 7 (and non-integer ones) with at least one unsupported x every way to use them; every rule name and number of points x interval; "
        "every subset of the stabilisation weights x problem flags x every operation, and weights withdrawn at every stage of the set-up; a state is one request, a transition its outcome, which must be a refusal or provably "
        "independent of what is missing")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "weights that are missing are judged by varying the value they would have"]
TIMEOUT = 300
SUPPORTED = range(4)
ORDERS = [-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 1.5, "1", None]
DEGREE = {("Gauss-Radau", 3): (4, 1e-5), ("Gauss-Radau", 4): (6, 1e-5), ("Gauss-Radau", 5): (8, 1e-5), ("Gauss", 1): (1, 1e-10), ("Gauss", 2): (3, 1e-10), ("Gauss", 3): (5, 1e-10),
          ("Newton-Cotes", 2): (1, 1e-10), ("Newton-Cotes", 3): (3, 1e-10)}
NAMES = ["Gauss-Radau", "Gauss", "Newton-Cotes", "Midpoint-Rule", "Gauss-Lobatto", "Simpson", "gauss", "", None]
KEYS = ("data", "dual", "primal", "primal-jump")
FULL = {"data": 3.0, "dual": 0.5, "primal": 0.25, "primal-jump": 7.0}
OPS = ["full", "triangular", "rhs", "slab", "first", "apply", "march", "improved", "errors", "coarse"]


def cases(tier, seed):
    out = [{"kind": "tables"}, {"kind": "rules"}, {"kind": "domain"}]
    out += [{"kind": "orders", "q": str(q)} for q in ORDERS]
    cfgs = [dict(wp=w, fw=f) for w in (False, True) for f in (False, True)]
    if tier != "quick":
        cfgs += [dict(q=2, qs=0, N=3, wp=w) for w in (False, True)] + [dict(k=2, ks=1, mesh=["square", 1, 1], wp=True)]
    out += [{"kind": "weights", "cfg": c} for c in cfgs]
    return out


def attempt(f):
    try:
        return True, f()
    except Exception as e:  # noqa: BLE001 - any refusal counts
        return False, f"{type(e).__name__}: {e}"


def run_case(case, rec):
    {"tables": tables, "rules": rules, "orders": orders, "weights": weights, "domain": domain}[case["kind"]](rec, case)


def unsupported(*o):
    return any(not (isinstance(x, int) and x in SUPPORTED) for x in o)


def tables(rec, case):
    for q, qs in itertools.product(ORDERS, repeat=2):
        if unsupported(q, qs):
            ok, got = attempt(lambda: P._real_elmat(q, qs))
            rec.state("tables", str(q), str(qs))
            rec.step()
            rec.trace()
            rec.expect(not ok, "tables:accepted", f"time-integration matrices for orders {q!r}, {qs!r} are returned: {str(got)[:200]}")
    for q in ORDERS:
        if unsupported(q):
            ok, got = attempt(lambda: basis_in_time[q])
            rec.state("basis", str(q))
            rec.step()
            rec.expect(not ok, "basis:accepted", f"a time basis of order {q!r} is returned: {str(got)[:200]}")


def orders(rec, case):
    q = next(o for o in ORDERS if str(o) == case["q"])
    for qs in ORDERS:
        if not unsupported(q, qs):
            continue
        def use():
            c = P.default_cfg(q=q, qs=qs, sol="wave")
            st = P.Problem(c).st
            return P.dense(st.get_spacetime_matrix()), st.get_spacetime_rhs().array
        ok, got = attempt(use)
        rec.state("orders", str(q), str(qs))
        rec.step()
        rec.trace()
        rec.expect(not ok, "orders:accepted", f"a space-time problem with time orders {q!r}, {qs!r} delivers a system")


def rules(rec, case):
    for name, n in itertools.product(NAMES, (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 2.5, None)):
        for a, b in ((0.0, 1.0), (-0.5, 2.5)):
            if (name, n) in DEGREE:
                continue
            ok, got = attempt(lambda: (lambda r: (r.current_pts(a, b), r.t_weights(b - a)))(QuadRule(name, n)))
            rec.state("rule", str(name), str(n), a)
            rec.step()
            rec.trace()
            if not ok or got[0] is None and got[1] is None:
                continue
            if name == "Midpoint-Rule":   # the number of points does not matter
                good = np.allclose([float(v) for v in got[0]], [(a + b) / 2]) and np.allclose([float(v) for v in got[1]], [b - a])
            else:                          # an addition is welcome if it is the rule its name says
                good = genuine(name, n, got, a, b)
            rec.expect(good, "rule:accepted", f"the rule {name!r} with {n!r} points gives {str(got)[:200]} on [{a}, {b}]")


def genuine(name, n, got, a, b):
    if got[0] is None or got[1] is None or not isinstance(n, int):
        return False
    deg = {"Gauss": 2 * n - 1, "Gauss-Radau": 2 * n - 2, "Newton-Cotes": n - 1, "Gauss-Lobatto": 2 * n - 3, "Simpson": 3}.get(name)
    p, w = np.array(got[0], dtype=float), np.array(got[1], dtype=float)
    if deg is None or len(p) != n or len(w) != n:
        return False
    s = 2 * (p - a) / (b - a) - 1
    return all(abs(w @ s**m - (b - a) * (1 - (-1) ** (m + 1)) / (2 * (m + 1))) < 1e-5 * (b - a) for m in range(deg + 1))


def deliver(cfg, stab, op, omega=None, withdraw=()):
    """One operation on a problem with these weights; withdraw = (stage, weights deleted from the description after that stage)."""
    def stage(name):
        if withdraw and withdraw[0] == name:
            for k in withdraw[1]:
                stab.pop(k, None)
    c = P.default_cfg(**cfg)
    _env.numbering = "blocked"
    coarse = P.make_mesh(c["mesh"])
    msh = P.refine_uniform(coarse)
    v, dv = P.sol_of(c)
    st = P.dst.SpaceTime(P.dst.OrderTime(c["q"], c["qs"]), P.dst.OrderSpace(c["k"], c["ks"]), N=c["N"], T=c["T"], t=0, msh=msh, stabilisation_terms=stab,
                         omega=omega or P.dst.DataDomain(indicator_function=P.half_indicator), solution=P.dst.ValueAndDerivative(v, dv),
                         parameters=P.dst.ProblemParameters(jumps_in_fw_problem=c["fw"], well_posed=c["wp"]))
    if isinstance(getattr(st, "sample_pts_error", None), list):
        st.sample_pts_error = np.linspace(0, c["T"], 3).tolist()
    stage("made")
    st.setup_spacetime_finite_elements()
    stage("elements")
    if c["wp"]:
        u0, u1 = P.initial()
        st.u1_0.interpolate(u0)
        st.u2_0.interpolate(u1)
    n = len(P.perm_of(st.fes))
    x, y = P.vec(np.cos(1.3 * np.arange(n))), P.vec(np.full(n, -4.5))
    if op == "full":
        return P.dense(st.get_spacetime_matrix())
    if op == "triangular":
        return P.dense(st.get_spacetime_matrix(precond=True))
    if op == "rhs":
        return np.array(st.get_spacetime_rhs().array)
    if op == "slab":
        return P.dense(st.get_slab_matrix())
    if op == "first":
        return P.dense(st.get_slab_matrix_first_slab())
    if op == "errors":
        e = st.measured_errors(x)
        return np.array([float(e[k]) for k in sorted(e)])
    if op == "coarse":
        st.prepare_coarse_grid_correction(coarse)
        return P.dense(st.get_spacetime_matrix_coarse())
    st.prepare_precondition_gmres()
    stage("prepared")
    if op == "apply":
        st.apply_spacetime_matrix(x, y)
        return np.array(y.array)
    st.set_solver_slab(P.LU(st.get_slab_matrix()))
    st.set_solver_first_slab(P.LU(st.get_slab_matrix_first_slab()))
    stage("solvers")
    (st.pre_time_marching if op == "march" else st.pre_time_marching_improved)(x, y)
    return np.array(y.array)


def close(a, b):
    return a.shape == b.shape and np.abs(a - b).max() <= 1e-9 * max(np.abs(b).max(), 1e-300)


def weights(rec, case):
    cfg = case["cfg"]
    ops = [o for o in OPS if not (cfg.get("fw") and o in ("improved", "march", "first"))]
    for op in ops:
        ok, whole = attempt(lambda: deliver(cfg, dict(FULL), op))
        if not ok:
            rec.fail(f"{op}:raises", f"{op} with all weights raises {whole}; {cfg}")
            return
        # further entries do not matter
        ok, got = attempt(lambda: deliver(cfg, {**FULL, "primal_jump": 99.0, "tikhonov": 5.0}, op))
        rec.step()
        rec.expect(not ok or close(got, whole), f"{op}:extra", f"{op} depends on weights it does not know; {cfg}")
        for r in range(4):
            for have in itertools.combinations(KEYS, r):
                part = {k: FULL[k] for k in have}
                ok, got = attempt(lambda: deliver(cfg, part, op))
                rec.state(op, str(sorted(cfg.items())), have)
                rec.step()
                rec.trace()
                if not ok:
                    continue
                rec.expect(close(got, whole), f"{op}:default", f"{op} with the weights {sorted(part)} only is delivered, but differs from the one with all; {cfg}")
                for k in KEYS:
                    if k not in have:
                        ok, other = attempt(lambda: deliver(cfg, {**FULL, k: 3 * FULL[k] + 1}, op))
                        rec.expect(not ok or close(other, got), f"{op}:guessed", f"{op} is delivered without the weight {k!r} it depends on; {cfg}")
        # withdrawn from the description in the course of the set-up: the operation is refused, or is what it would have been
        for when in ("made", "elements", *(("prepared", "solvers") if op in ("apply", "march", "improved") else ())):
            for r in (1, 4):
                for gone in itertools.combinations(KEYS, r):
                    ok, got = attempt(lambda: deliver(cfg, dict(FULL), op, withdraw=(when, gone)))
                    rec.state(op, str(sorted(cfg.items())), when, gone)
                    rec.step()
                    rec.trace()
                    rec.expect(not ok or close(got, whole), f"{op}:withdrawn", f"{op} after the weights {gone} were withdrawn ({when}) is delivered, but differs from the one with all; {cfg}")
    rec.sample({"configuration": cfg, "operations": ops})


def domain(rec, case):
    """No data domain given: refused at latest by what depends on it."""
    for fitted, op in itertools.product((True, False), OPS):
        ok, got = attempt(lambda: deliver({"wp": True}, dict(FULL), op, omega=P.dst.DataDomain(fitted=fitted)))
        rec.state("domain", fitted, op)
        rec.step()
        if not ok:
            continue
        for ind in (P.half_indicator, lambda x: 1.0 + 0.0 * x[0]):
            rec.expect(close(got, deliver({"wp": True}, dict(FULL), op, omega=P.dst.DataDomain(indicator_function=ind))), f"{op}:domain",
                       f"{op} is delivered without a data domain (fitted {fitted})")
