"""Run under mpirun by check C08: failures during solves that are distributed over the processes."""
import gc
import json
import os
import sys

sys.path.insert(0, os.environ["VERIF_SRC"])
gc.disable()
import numpy as np
from mpi4py import MPI
from petsc4py import PETSc

from dxss.gmres import get_gmres_solution

comm = MPI.COMM_WORLD
n = int(sys.argv[1])
A = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1) * 0.5 + np.eye(n, k=-1) * 0.25
D = np.diag(1.0 / np.arange(1.0, n + 1))
bglob = 1.0 + np.cos(np.arange(n))


class Par:
    """A matrix acting on distributed vectors; `what` happens at application number `at`, on all processes."""

    def __init__(self, M, dist, at=0, what=None, comp=None):
        self.M, self.dist, self.lo = M, dist, sum(dist[:comm.rank])
        self.calls, self.at, self.what, self.comp = 0, at, what, comp

    def _go(self, x, y):
        self.calls += 1
        out = self.M @ np.concatenate(comm.allgather(np.array(x.array)))
        if self.calls == self.at:
            if isinstance(self.what, Exception):
                raise self.what
            out[slice(None) if self.comp is None else self.comp] = self.what
        y.array[:] = out[self.lo:self.lo + self.dist[comm.rank]]

    def mult(self, mat, x, y):
        self._go(x, y)

    def apply(self, pc, x, y):
        self._go(x, y)


def solve(dist, op, pre):
    b = PETSc.Vec().createMPI((dist[comm.rank], n), comm=comm)
    lo = sum(dist[:comm.rank])
    b.array[:] = bglob[lo:lo + dist[comm.rank]]
    x = r = error = None
    try:
        x, r = get_gmres_solution(op, b, pre, restart=12, printrates=False)
        x, r = np.array(x.array), np.array(r.array)
    except Exception as e:  # noqa: BLE001
        error = f"{type(e).__name__}: {str(e)[:100]}"
    got = comm.allgather((x, r, error))
    # parallel PETSc objects have to be destroyed at the same time everywhere
    del b, op, pre
    gc.collect()
    if hasattr(PETSc, "garbage_cleanup"):
        PETSc.garbage_cleanup(PETSc.COMM_WORLD)
    comm.Barrier()
    return got


def report(d):
    with open(os.path.join(os.environ["VERIF_OUT"], f"{comm.rank}.jsonl"), "a") as f:
        f.write(json.dumps(d) + "\n")


def main():
    p = comm.size
    even = tuple(len(a) for a in np.array_split(np.arange(n), p))
    for dist in dict.fromkeys([even, (n, *[0] * (p - 1)), (*[0] * (p - 1), n), (1, *[0] * (p - 2), n - 1)[:p]]):
        op, pre = Par(A, dist), Par(D, dist)
        healthy = solve(dist, op, pre)
        if any(h[2] for h in healthy):
            if comm.rank == 0:
                report({"where": f"healthy solve, rows {dist}", "bad": ["raises", str([h[2] for h in healthy])]})
            return
        for who, calls in (("operator", op.calls), ("preconditioner", pre.calls)):
            for at in range(1, calls + 1):
                for kind, what in (("nan", np.nan), ("inf", np.inf), ("RuntimeError", RuntimeError("injected"))):
                    for comp in (None,) if kind == "RuntimeError" else (None, 0, n - 1):
                        bad = Par(A if who == "operator" else D, dist, at, what, comp)
                        got = solve(dist, bad if who == "operator" else Par(A, dist), bad if who == "preconditioner" else Par(D, dist))
                        again = solve(dist, Par(A, dist), Par(D, dist))
                        where = f"{p} processes, rows {dist}: {kind} in {who} application {at}/{calls}, component {comp}"
                        res = None
                        silent = [k for k, g in enumerate(got) if g[2] is None]
                        visible = who == "operator" and at == calls and kind != "RuntimeError" and not all(np.all(np.isfinite(g[1])) for g in got if g[2] is None)
                        if silent and not visible:
                            res = ["silent", f"process {silent} is given a solution"]
                        elif any(g[2] for g in again) or not all(np.array_equal(g[0], h[0]) for g, h in zip(again, healthy)):
                            res = ["aftermath", f"a later healthy solve gives another result or {[g[2] for g in again]}"]
                        if comm.rank == 0:
                            report({"where": where, "bad": res})
                        if res:
                            return


main()
comm.Barrier()
if comm.rank == 0:
    report({"done": True})
