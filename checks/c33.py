"""C33: options set at run time tune the iterative solve, and only while they are set."""
import itertools

import krylov as K
import numpy as np
from petsc4py import PETSc

LEVEL = "model_checking"
RULE = ("every combination of run-time options (step limit, relative and absolute tolerance, restart length; each absent or with one of several values) x "
        "a menu of arguments x systems, in histories (options set, solve, options withdrawn, solve); a state is (system, arguments, options, position in the "
        "history), a transition one solve compared with the solve whose arguments have the options' values")
ASSUMPTIONS = ["serial PETSc 3.19 (real)", "only the options of the solver that correspond to an argument"]
NAMES = {"ksp_max_it": "maxsteps", "ksp_rtol": "reltol", "ksp_atol": "tol", "ksp_gmres_restart": "restart"}
OTHER = {"verif_unrelated": "7", "mat_verif": "x"}


def systems():
    n = 9
    A = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1)
    return {"tridiagonal": (A, np.cos(np.arange(n)), np.eye(n)), "shift": (np.roll(np.eye(6), 1, axis=0), np.eye(6)[0], np.eye(6)),
            "scaled": (A, np.ones(n), np.diag(1 / np.arange(1.0, n + 1)))}


def option_sets(tier):
    menu = {"ksp_max_it": (None, "2", "60"), "ksp_rtol": (None, "1e-2", "1e-9"), "ksp_atol": (None, "0.3"), "ksp_gmres_restart": (None, "2", "1", "5")}
    if tier != "quick":
        menu = {"ksp_max_it": (None, "0", "1", "2", "4", "60"), "ksp_rtol": (None, "0.3", "1e-2", "1e-9", "0"), "ksp_atol": (None, "0.3", "1e-5"),
                "ksp_gmres_restart": (None, "1", "2", "5")}
    for v in itertools.product(*menu.values()):
        yield {k: x for k, x in zip(menu, v) if x is not None}


ARGS = [{}, {"maxsteps": 3}, {"maxsteps": 80, "restart": 3}, {"reltol": 0.1}, {"tol": 0.5, "reltol": 1e-11}, {"restart": 1, "maxsteps": 200, "reltol": 1e-3, "printrates": False}]


def cases(tier, seed):
    return [{"system": s, "args": i, "tier": tier} for s in systems() for i in range(len(ARGS))]


def outcome(system, kw):
    A, b, M = systems()[system]
    op = K.Op(A)
    o = K.solve(op, b, K.Pre(M), **kw)
    return {"error": None if o["error"] is None else type(o["error"]).__name__, "x": None if o["error"] else [float(v).hex() for v in o["x"]],
            "r": None if o["error"] else [float(v).hex() for v in o["r"]], "progress": o["progress"], "applications": op.calls}


def differs(got, want):
    return next((k for k in want if got[k] != want[k]), None)


def run_case(case, rec):
    got = K.isolated(explore, case)
    if "died" in got:
        rec.fail("died", f"the process solving {case} died (status {got['died']})")
        return
    for k, m in got["fails"]:
        rec.fail(k, m)
    for s in range(got["states"]):
        rec.state(case["system"], case["args"], s)
    rec.step(got["steps"])
    rec.trace(got["steps"])
    rec.sample({"system": case["system"], "arguments": ARGS[case["args"]], "option_sets": got["states"] // 2})


def explore(case):
    name, args = case["system"], ARGS[case["args"]]
    opts = PETSc.Options()
    fails, states, steps = [], 0, 0
    plain = outcome(name, args)
    wants = {}
    for o in option_sets(case["tier"]):
        eff = dict(args)
        for k, v in o.items():
            eff[NAMES[k]] = int(v) if k in ("ksp_max_it", "ksp_gmres_restart") else float(v)
        key = repr(sorted(eff.items()))
        if key not in wants:
            wants[key] = outcome(name, eff)
        for k, v in {**o, **OTHER}.items():
            opts.setValue(k, v)
        got = outcome(name, args)
        left = {k: opts.getString(k) if opts.hasName(k) else None for k in (*o, *OTHER)}
        for k in (*o, *OTHER):
            opts.delValue(k)
        after = outcome(name, args)
        states += 2
        steps += 3
        who = f"{name} with arguments {args} and options {o}"
        d = differs(got, wants[key])
        if d:
            fails.append((f"option:{d}", f"{who}: {d} is {str(got[d])[:200]}, with arguments {eff} it is {str(wants[key][d])[:200]}"))
        d = differs(after, plain)
        if d:
            fails.append((f"withdrawn:{d}", f"{who}, withdrawn again: {d} is {str(after[d])[:200]} instead of {str(plain[d])[:200]}"))
        if left != {**o, **OTHER}:
            fails.append(("kept", f"{who}: after the solve the options are {left}"))
        if fails:
            break
    return {"fails": fails, "states": states, "steps": steps}
