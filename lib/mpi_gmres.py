"""Run under mpirun by check C10: all distributions of n rows over all groups of processes."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.environ["VERIF_SRC"])
import numpy as np
from mpi4py import MPI
from petsc4py import PETSc

from dxss.gmres import get_gmres_solution

n = int(sys.argv[1])
world = MPI.COMM_WORLD
size, rank = world.size, world.rank
A = np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1) * 0.5 + np.eye(n, k=-1) * 0.25
D = np.diag(1.0 / np.arange(1.0, n + 1))
bglob = 1.0 + np.cos(np.arange(n))


class Par:
    def __init__(self, comm, M, dist):
        self.comm, self.M = comm, M
        self.dist = dist
        self.lo = sum(dist[:comm.rank])

    def _go(self, x, y):
        assert x.getLocalSize() == self.dist[self.comm.rank], "operand not laid out like the right-hand side"
        full = np.concatenate(self.comm.allgather(np.array(x.array)))
        y.array[:] = (self.M @ full)[self.lo:self.lo + self.dist[self.comm.rank]]

    def mult(self, mat, x, y):
        self._go(x, y)

    def apply(self, pc, x, y):
        self._go(x, y)


def compositions(n, p):
    if p == 1:
        yield (n,)
        return
    for k in range(n + 1):
        for rest in compositions(n - k, p - 1):
            yield (k, *rest)


def groups():
    for k in range(1, size + 1):
        for g in itertools.combinations(range(size), k):
            yield list(g)
            if 1 < k:
                yield list(reversed(g))


def main():
    for g in groups():
        color = 0 if rank in g else MPI.UNDEFINED
        comm = world.Split(color, g.index(rank) if rank in g else 0)
        for dist in compositions(n, len(g)):
            for setting in ({}, {"restart": 2, "reltol": 1e-9, "maxsteps": 400}, {"printrates": False, "reltol": 1e-3}):
                if rank in g:
                    run(comm, g, dist, setting)
        if comm != MPI.COMM_NULL:
            comm.Free()
    world.Barrier()
    if rank == 0:
        report({"done": True})


def report(d):
    """Every process appends to a file of its own: lines on the shared output may be mixed up."""
    with open(os.path.join(os.environ["VERIF_OUT"], f"{MPI.COMM_WORLD.rank}.jsonl"), "a") as f:
        f.write(json.dumps(d) + "\n")


def run(comm, g, dist, setting):
    loc = dist[comm.rank]
    lo = sum(dist[:comm.rank])
    b = PETSc.Vec().createMPI((loc, n), comm=comm)
    b.array[:] = bglob[lo:lo + loc]
    bad = None
    try:
        x, r = get_gmres_solution(Par(comm, A, dist), b, Par(comm, D, dist), **setting)
        if x.getSizes() != b.getSizes() or r.getSizes() != b.getSizes() or x.getOwnershipRange() != b.getOwnershipRange():
            bad = ("layout", f"sizes {x.getSizes()} {r.getSizes()} instead of {b.getSizes()}")
        elif x.getComm().getSize() != len(g):
            bad = ("communicator", "solution lives on another communicator")
        elif not np.array_equal(b.array, bglob[lo:lo + loc]):
            bad = ("rhs", "right-hand side changed")
    except Exception as e:  # noqa: BLE001
        bad = ("raises", f"rank {rank} raised {type(e).__name__}: {str(e)[:200]}")
    anybad = comm.allgather(bad)
    if not any(anybad):
        xs = np.concatenate(comm.allgather(np.array(x.array)))
        rs = np.concatenate(comm.allgather(np.array(r.array)))
        want = REF[json.dumps(setting)]
        if not np.abs(xs - want).max() <= 1e-9 * np.abs(want).max():
            bad = ("solution", f"solution {xs.tolist()} instead of {want.tolist()}")
        elif not np.abs(rs - (bglob - A @ xs)).max() <= 1e-10:
            bad = ("residual", "residual differs from right-hand side minus operator times solution")
        anybad = [bad]
    if comm.rank == 0:
        report({"group": g, "dist": list(dist), "setting": str(setting), "bad": next((q for q in anybad if q), None)})


REF = {}
for s in ({}, {"restart": 2, "reltol": 1e-9, "maxsteps": 400}, {"printrates": False, "reltol": 1e-3}):
    vb = PETSc.Vec().createWithArray(bglob.copy(), comm=PETSc.COMM_SELF)
    REF[json.dumps(s)] = np.array(get_gmres_solution(Par(MPI.COMM_SELF, A, (n,)), vb, Par(MPI.COMM_SELF, D, (n,)), **s)[0].array)
main()
