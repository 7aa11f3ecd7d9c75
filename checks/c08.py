"""C08: a failure at any application of the operator or the preconditioner."""
import json
import os
import subprocess
import tempfile

import krylov as K
import launch
import numpy as np
import paths

MPI_PROGRAM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "mpi_faults.py")

LEVEL = "fault_enumeration"
RULE = ("every system x every application index of operator and preconditioner that a healthy solve performs x every kind of failure "
        "(exceptions, NaN or infinity in one or all components), each followed by a healthy solve; the same with the system distributed over several "
        "processes (mpirun), where every process has to be told; a state is (system or distribution, callback, index, kind)")
ASSUMPTIONS = ["serial PETSc 3.19 (real)", "a non-finite result of the very last operator application (the returned residual) may show as a "
               "non-finite residual instead of an error"]


class Custom(Exception):
    pass


KINDS = {
    "RuntimeError": RuntimeError("injected"), "ValueError": ValueError("injected"), "Custom": Custom("injected"),
    "ZeroDivisionError": ZeroDivisionError("injected"), "StopIteration": StopIteration("injected"),
    "KeyError": KeyError("injected"), "MemoryError": MemoryError("injected"), "PETSc": K.PETSc.Error(56),
    "nan": np.nan, "inf": np.inf, "-inf": -np.inf, "nan-all": "nan", "inf-all": "inf",
}


def every_exception():
    """An instance of every exception class of the interpreter and of NumPy that can be built from one text."""
    todo, out = [Exception], {}
    while todo:
        c = todo.pop()
        todo += c.__subclasses__() if c.__module__ in ("builtins", "numpy", "numpy.linalg", "numpy.exceptions", "petsc4py.PETSc") else []
        if c.__module__ in ("builtins", "numpy", "numpy.linalg", "numpy.exceptions"):
            try:
                out[c.__name__] = c("injected")
            except TypeError:
                continue
    return out


def systems():
    n = 5
    A = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1)
    out = [("bidiag", A, np.eye(n), {}), ("jacobi", A, np.diag(1 / np.diag(A)), {}),
           ("restart", A, np.eye(n), {"restart": 2}), ("loose", A, np.eye(n), {"reltol": 0.2}),
           ("exact", A, np.linalg.inv(A), {}), ("one", np.array([[2.0]]), np.array([[1.0]]), {}),
           ("shift", np.roll(np.eye(4), 1, axis=0), np.eye(4), {})]
    i = np.arange(8)
    out.append(("dense", np.eye(8) * 5 + np.cos(np.add.outer(i, 2 * i)), np.eye(8), {"reltol": 1e-10}))
    m = 40
    out.append(("long", np.diag(np.linspace(1.0, 30.0, m)) + 0.5 * np.eye(m, k=1), np.eye(m), {}))
    out.append(("reported", A, np.eye(n), {"printrates": True}))
    return out


def cases(tier, seed):
    return [{"sys": i} for i in range(len(systems()))] + [{"processes": p, "n": n} for p in ((2, 3) if tier == "quick" else (2, 3, 4))
                                                          for n in ((4,) if tier == "quick" else (3, 4, 6))]


def distributed(case, rec):
    for attempt in range(3):  # an abort of the MPI environment itself does not come back
        with tempfile.TemporaryDirectory(prefix="c08-") as out:
            try:
                p = launch.run(case["processes"], [MPI_PROGRAM, str(case["n"])], 110, started=lambda: bool(os.listdir(out)), always=True, VERIF_SRC=str(paths.SRC), VERIF_OUT=out)
            except subprocess.TimeoutExpired:
                if attempt < 1:
                    continue
                rec.fail("distributed:hang", f"failing solves with {case['processes']} processes did not finish")
                return
            lines = []
            for f in sorted(os.listdir(out)):
                with open(os.path.join(out, f)) as h:
                    lines += [json.loads(x) for x in h if x.endswith("\n")]
        if any("done" in r or r["bad"] for r in lines):
            break
    for r in lines:
        if "done" in r:
            continue
        rec.state(r["where"])
        rec.step(2)
        if r["bad"]:
            rec.fail(f"distributed:{r['bad'][0]}", f"{r['where']}: {r['bad'][1]}")
            return
        rec.trace()
    if not any("done" in r for r in lines):
        if lines or "Traceback" in (p.stderr or ""):
            rec.fail("distributed:aborted", f"failing solves with {case['processes']} processes aborted: {(p.stderr or '')[-600:]}")
        else:
            raise RuntimeError(f"mpirun failed: {(p.stderr or '')[-1500:]}")


def run_case(case, rec):
    if "processes" in case:
        return distributed(case, rec)
    name, A, M, kw = systems()[case["sys"]]
    n = len(A)
    b = np.ones(n) + 0.5 * np.cos(np.arange(n))
    if name == "shift":
        b = np.eye(4)[0]
    kw = {"printrates": False, "maxsteps": 60, **kw}
    op, pre = K.Op(A), K.Pre(M)
    healthy = K.solve(op, b, pre, **kw)
    if healthy["error"] is not None:
        rec.fail("healthy", f"{name}: healthy solve raises {healthy['error']!r}")
        return
    total = {"operator": op.calls, "preconditioner": pre.calls}
    for who, calls in total.items():
        for idx in range(1, calls + 1):
            kinds = {**KINDS, **every_exception()} if name in ("bidiag", "exact") else KINDS
            for kind, what in [*kinds.items(), ("lasting RuntimeError", KINDS["RuntimeError"]), ("lasting nan", np.nan), ("lasting inf", np.inf)]:
                comps = [None] if isinstance(what, (Exception, str)) else range(n) if n < 20 else (0, n - 1)
                for comp in comps:
                    fired = []

                    def fault(call, out, what=what, comp=comp, idx=idx, fired=fired, lasting=kind.startswith("lasting")):
                        if call != idx and not (lasting and call > idx):
                            return None
                        fired.append(call)
                        if isinstance(what, Exception):
                            raise what
                        out = np.array(out)
                        if isinstance(what, str):
                            out[:] = float(what)
                        else:
                            out[comp] = what
                        return out

                    def attempt():
                        K.FREE = False
                        o = K.solve(K.Op(A, fault if who == "operator" else None), b, K.Pre(M, fault if who == "preconditioner" else None), **kw)
                        again = K.solve(A, b, M, **kw)
                        return {"fired": bool(fired), "error": None if o["error"] is None else repr(o["error"]),
                                "visible": o["error"] is None and not bool(np.all(np.isfinite(o["r"]))),
                                "again": repr(again["error"]) if again["error"] is not None else None,
                                "same": again["error"] is None and np.array_equal(again["x"], healthy["x"])
                                and again["progress"] == healthy["progress"]}
                    o = K.isolated(attempt)
                    rec.step()
                    rec.state(name, who, idx, kind, comp)
                    where = f"{name}: {kind} in {who} application {idx}/{calls}" + (f" component {comp}" if comp is not None else "")
                    if "died" in o:
                        rec.fail("died", f"{where}: the process died (status {o['died']})")
                        return
                    if not o["fired"]:
                        rec.fail("not-reached", f"{where} was not reached")
                        continue
                    if o["error"] is None:
                        visible = who == "operator" and idx == calls and o["visible"] and not isinstance(what, Exception)
                        if not visible:
                            rec.fail(f"silent:{who}:{'raise' if isinstance(what, Exception) else 'value'}", f"{where} went unnoticed")
                            return
                    rec.trace()
                    if not o["same"]:
                        rec.fail("aftermath", f"{where}: a later healthy solve gives {o['again'] or 'another result'}")
                        return
    rec.sample({"system": name, "applications": total})
