"""C29: every driver computes the solution of its assembled system with every backend."""
import itertools
import os
import shutil
import tempfile
import warnings

import drivers as D
import forktree
import numpy as np
import scipy.sparse.linalg as sla
import stprob as P

LEVEL = "model_checking"
RULE = ("every driver x problem sizes and orders (the constants at the top of the module) x availability of the Pardiso package x every "
        "sequence of (backend, measure errors) calls up to length 2 (3 in the thorough tier) in one process; a state is (driver, settings, "
        "history), a transition one solve_problem call")
ASSUMPTIONS = ["DOLFINx is replaced by a stand-in (fakefem/), PyPardiso by one with the same interface (lib/fakepardiso)",
               "problem sizes reduced by editing the constants at the top of each driver and clamping mesh sizes"]
TIMEOUT = 400
BACKENDS = ("pypardiso", "petsc-LU", "direct")


def cases(tier, seed):
    out = []
    thorough = tier == "thorough"
    conf = [(1, {"N": n, "ORDER": o}, {}) for n in ((1, 2, 3) if not thorough else (1, 2, 3, 4, 6)) for o in (1, 2, 3)]
    conf += [(1, {}, {"max_interval": 6})]
    conf += [(2, {"REF_LVL": r, "ORDER": o}, {"patch": p}) for r in (0, 1) for o in (1, 2, 3) for p in ("coarse", None)
             if (thorough or r + o < 4) and not (r == 1 and p is None and o > (1 if not thorough else 2))]
    conf += [(3, {"REF_LVL": r, "GCC": g, "ORDER": o}, {"max_box": b}) for r, b in ((0, 2), (1, 2), (1, 3)) for g in (False, True) for o in (1, 2)
             if o == 1 or thorough and b == 2]
    for dim, ov, k in conf:
        for pardiso in ("present", "absent", "broken"):
            if not thorough and pardiso == "broken" and (ov.get("ORDER", 1) > 1 or ov.get("N", 1) > 1 or ov.get("REF_LVL", 0) > 0):
                continue
            out.append({"dim": dim, "ov": ov, "k": k, "pardiso": pardiso, "depth": 3 if thorough else 2, "main": False})
        if ov.get("ORDER", 1) == 1 and ov.get("N", 1) < 3:
            out += [{"dim": dim, "ov": ov, "k": k, "pardiso": p, "depth": 0, "main": True} for p in ("present", "absent")]
    return out


class Watch:
    """Which solutions the driver hands to the error measurement and the plots."""

    def __init__(self):
        self.errors, self.plots = [], []
        S = P.dst.SpaceTime
        self.measured = S.measured_errors
        watch = self

        def measured(st, u, *a, **k):
            watch.errors.append(np.array(u.array))
            return watch.measured(st, u, *a, **k)

        def plot(st, u, *a, **k):
            watch.plots.append(np.array(u.array))
        S.measured_errors, S.plot_error, S.plot_para_view = measured, plot, plot


def settings(case):
    return f"solve_{case['dim']}d {case['ov']} {case['k']} Pardiso {case['pardiso']}"


def load(case, main=False):
    w = Watch()
    with warnings.catch_warnings(record=True):
        m, _ = D.load(case["dim"], case["ov"], pardiso=case["pardiso"], main=main, **case["k"])
    return w, m


def main_run(case):
    w, m = load(case, main=True)
    if len(w.errors) != 1:
        return [("main", f"{settings(case)} run as a program measures the errors {len(w.errors)} times")], 1, []
    return verify(case, m, w.errors + w.plots, "run as a program"), 1, [("main",)]


def verify(case, m, sols, who):
    A = P.sparse(m.ST.get_spacetime_matrix()).tocsc()
    b = np.array(m.ST.get_spacetime_rhs().array)
    x = sla.spsolve(A, b)
    out = []
    for s in sols:
        err = np.linalg.norm(s - x) / np.linalg.norm(x)
        if not err < 1e-3:
            out.append(("solution", f"{settings(case)} {who}: the solution is off by {err:.2e}, its residual by "
                        f"{np.linalg.norm(A @ s - b) / np.linalg.norm(b):.2e}"))
    return out


def histories(case):
    w, m = load(case)
    fails = []
    want = "pypardiso" if case["pardiso"] == "present" else "petsc-LU"
    if getattr(m, "SOLVER_TYPE", want) != want:
        fails.append(("selection", f"{settings(case)} selects {m.SOLVER_TYPE}"))
    if w.errors or w.plots:
        fails.append(("import", f"{settings(case)}: errors measured on import"))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        m.PySolver(None, None)
    if bool(seen) != (case["pardiso"] != "present"):
        fails.append(("warning", f"{settings(case)}: creating a PySolver warns {len(seen)} times"))
    if fails:
        return fails, 0, []
    letters = [(b, e) for b in BACKENDS for e in (False, True) if b != "pypardiso" or case["pardiso"] == "present"]
    return visit(case, m, w, [], letters)


def visit(case, m, w, path, letters):
    fails, edges, states = [], 0, [tuple(path)]
    if len(path) < case["depth"]:
        for a in letters:
            try:
                f, e, s = forktree.branch(step, case, m, w, path, a, letters)
            except forktree.Died as x:
                f, e, s = [("raises", f"{settings(case)} after {[*path, a]}: {str(x)[-1200:]}")], 1, []
            fails += f
            edges += e
            states += s
            if len(fails) > 3:
                break
    return fails, edges, states


def step(case, m, w, path, letter, letters):
    backend, measure = letter
    w.errors.clear()
    w.plots.clear()
    m.SOLVER_TYPE = backend
    # the default is not to measure
    m.solve_problem(measure_errors=True) if measure else m.solve_problem()
    path = [*path, letter]
    fails = []
    if len(w.errors) != int(measure):
        fails.append(("measuring", f"{settings(case)}: errors measured {len(w.errors)} times in the last call of {path}"))
    fails += verify(case, m, w.errors + w.plots, f"last call of {path}")
    if fails:
        return fails, 1, []
    f, e, s = visit(case, m, w, path, letters)
    return f, e + 1, s


def run_case(case, rec):
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif-driver-")
    os.chdir(d)
    try:
        fails, edges, states = forktree.branch(main_run if case["main"] else histories, case)
    except forktree.Died as e:
        text = str(e)
        if "/src/dxss/" not in text or "Unsupported" in text:
            raise
        rec.fail("raises", f"{settings(case)}: {text[-1200:]}")
        return
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    for key, msg in fails:
        rec.fail(f"{key}:{case['dim']}d", msg)
    for s in states:
        rec.state(case["dim"], str(case["ov"]), str(case["k"]), case["pardiso"], s)
    rec.step(edges)
    rec.trace(edges)
    rec.sample({"driver": settings(case), "calls": edges, "histories": [str(s) for s in states[:3]]})
