"""C34: the reported errors do not depend on how the cells are distributed over processes."""
import itertools

import configs
import numpy as np
import stprob as P
from dolfinx import _env
from mpi4py import MPI
from runner import HarnessError, guarded

LEVEL = "model_checking"
RULE = ("every assignment of the cells of small meshes to up to three simulated processes (processes without cells included) x orders x slab counts x "
        "discrete solutions; every process runs the real error measurement, integrating only its own cells, with collective operations evaluated from what "
        "all processes contribute; a state is (configuration, assignment), a transition one process' measurement compared with the undistributed one")
ASSUMPTIONS = ["processes are simulated: each sees the whole discrete solution and integrates functionals over its own cells only; the communicator of the mesh "
               "is a stand-in that evaluates collectives over all processes' contributions", "DOLFINx is replaced by a stand-in (fakefem/)"]
KEYS = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")


class Comm:
    """Process `rank`'s communicator. contributions[p][i]: what process p put into its i-th collective in the previous pass."""

    def __init__(self, rank, size, contributions):
        self.rank, self.size, self.known, self.mine = rank, size, contributions, []

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _all(self, name, value, op):
        i = len(self.mine)
        self.mine.append((name, str(op), np.array(value, dtype=float)))
        vals = []
        for p in range(self.size):
            if p == self.rank:
                vals.append(np.array(value, dtype=float))
            elif self.known and i < len(self.known[p]):
                vals.append(self.known[p][i][2])
        return np.array(vals)

    @staticmethod
    def _reduce(vals, op):
        for o, f in ((MPI.SUM, np.sum), (MPI.MAX, np.max), (MPI.MIN, np.min)):
            if op == o:
                return f(vals, axis=0)
        raise HarnessError(f"reduction {op}")

    def allreduce(self, sendobj, op=MPI.SUM):
        r = self._reduce(self._all("allreduce", sendobj, _name(op)), op)
        return float(r) if np.ndim(r) == 0 else r

    def Allreduce(self, send, recv, op=MPI.SUM):
        r = self._reduce(self._all("allreduce", send, _name(op)), op)
        np.copyto(np.asarray(recv), r)

    def allgather(self, sendobj):
        return [float(v) if np.ndim(v) == 0 else v for v in self._all("allgather", sendobj, "")]

    def barrier(self):
        self._all("barrier", 0.0, "")

    Barrier = barrier

    def __getattr__(self, name):
        raise HarnessError(f"the stand-in communicator has no {name}")


def _name(op):
    return next((n for n in ("SUM", "MAX", "MIN") if op == getattr(MPI, n)), "?")


def configurations(tier):
    b = configs.Bag()
    for q, N in itertools.product((0, 1, 2) if tier == "quick" else (0, 1, 2, 3), (1, 2) if tier == "quick" else (1, 2, 3)):
        b.add(q=q, qs=0, N=N, T=0.75, mesh=["irregular", 3])
    b.add(q=1, qs=1, k=2, ks=1, N=2, T=1.0, mesh=["square", 1, 1])
    b.add(q=1, qs=0, N=2, T=1.5, mesh=["skew"])
    b.add(q=1, qs=0, N=2, T=1.5, mesh=["quad", 2, 1], numbering="interleaved", wp=True)
    if tier != "quick":
        b.add(q=2, qs=2, k=2, ks=2, N=3, T=1.5, mesh=["skew"])
        b.add(q=1, qs=0, N=2, T=1.5, mesh=["irregular", 5])
        b.add(q=1, qs=0, N=1, T=1.5, mesh=["tet", 1])
    return b.out


def cases(tier, seed):
    out = []
    for c in configurations(tier):
        for size in (2, 3):
            out.append({"cfg": c, "size": size})
    return out


def run_case(case, rec):
    c, size = case["cfg"], case["size"]
    msh = P.make_mesh(c["mesh"])
    world = msh.comm
    st = P.Problem(c, msh=msh).st
    ncell = len(msh._fe.cells)
    st.sample_pts_error = np.linspace(0, c["T"], 9).tolist()  # fewer sample times: the reductions are what is explored
    n = st.fes.num_dofs
    sols = [np.cos(1.3 * np.arange(n) + 0.4)] + ([np.zeros(n)] if size == 2 else [])
    assignments = list(itertools.product(range(size), repeat=ncell))
    if size == 3 and ncell > 5:
        assignments = assignments[::5]
    try:
        for u in sols:
            msh.comm, _env.owned = world, None
            ok, want = guarded(rec, "serial:raises", st.measured_errors, P.vec(u))
            if not ok:
                return
            for a in assignments:
                if not distributed(rec, c, st, msh, u, np.array(a), size, want):
                    return
    finally:
        msh.comm, _env.owned = world, None
    rec.sample({"cfg": P.cfg_id(c), "processes": size, "assignments": len(assignments)})


def distributed(rec, c, st, msh, u, a, size, want):
    known, results = None, None
    who = f"{P.cfg_id(c)}, cells on processes {a.tolist()} of {size}"
    for _pass in range(6):
        mine, results = [], []
        for r in range(size):
            comm = Comm(r, size, known)
            msh.comm, _env.owned = comm, a == r
            ok, got = guarded(rec, "raises", st.measured_errors, P.vec(u))
            if not ok:
                return False
            mine.append(comm.mine)
            results.append(got)
        same = known is not None and all(len(x) == len(y) and all(np.array_equal(p[2], q[2]) for p, q in zip(x, y)) for x, y in zip(known, mine))
        known = mine
        if same:
            break
    else:
        raise HarnessError("contributions to the collectives do not settle")
    rec.state(P.cfg_id(c), size, a.tolist(), float(u[0]))
    ops = [[(x[0], x[1]) for x in m] for m in known]
    if not rec.expect(all(o == ops[0] for o in ops), "collectives", f"{who}: the processes call different collectives ({[len(o) for o in ops]} of them): they would wait for each other"):
        return False
    for r, got in enumerate(results):
        rec.step()
        for k in KEYS:
            if not rec.expect(k in got and abs(float(got[k]) - want[k]) <= 1e-10 * (1 + abs(want[k])), f"value:{k}",
                              f"{who}: process {r} reports {k} = {got.get(k)}, the error of the whole mesh is {want[k]}"):
                return False
    rec.trace()
    return True
