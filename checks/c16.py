"""C16: all sequences of operations on one prepared object, slab solver failures included."""
import itertools
import os
import shutil
import tempfile

import configs
import matplotlib
import matplotlib.axes
import numpy as np
import stprob as P
from forktree import Died, branch

matplotlib.use("Agg")
LEVEL = "model_checking"
RULE = ("every sequence of operations up to the given length (operator application, both time-marching solves, two-level solve, coarse transfer, right-hand side "
        "set-up, error measurement, plots and exports, each with two inputs, and failures of every slab or coarse solve of every solver-based operation), every prefix "
        "in its own forked snapshot; a state is a sequence, a transition one operation whose results, inputs and the initial data are "
        "compared with a fresh object's")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "slab and coarse solvers are exact dense factorisations "
               "that fail on demand before or after writing a partial result", "error measurement uses a shortened list of sample times if the object exposes it"]
TIMEOUT = 800

import matplotlib.pyplot as plt  # noqa: E402

drawn = []


_orig = matplotlib.axes.Axes.pcolormesh


def _record(self, *args, **kw):
    drawn.append([np.array(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)) for a in args[:3]])
    return _orig(self, *args, **kw)


matplotlib.axes.Axes.pcolormesh = _record
plt.colorbar = lambda *a, **k: None
plt.show = lambda *a, **k: plt.close("all")


class Failure(Exception):
    pass


OPS = ["apply", "march", "improved", "twolevel", "transfer", "rhs", "errors", "export", "plot", "ploterr"]


def configurations(tier):
    out = []
    b = configs.Bag()
    b.add(q=1, qs=0, N=2, wp=True, mesh=["interval", 2], omega="half", numbering="permuted")
    b.add(q=1, qs=1, N=2, wp=False, fw=True, mesh=["interval", 1], omega="half", numbering="interleaved")
    if tier != "quick":
        b.add(q=2, qs=1, N=3, wp=True, mesh=["interval", 1], omega="half", k=2, ks=1)
        b.add(q=0, qs=0, N=3, wp=False, mesh=["interval", 2], omega="half")
    for c in b.out:
        out.append(c)
    return out


def alphabet(c):
    out = [(op, v) for op in OPS for v in ((0, 1) if op in ("apply", "march", "improved", "twolevel", "errors") else (0,))]
    if c["fw"]:
        pass    # the improved variant refuses: it must do so every time
    for op in ("march", "improved", "twolevel"):
        if op == "improved" and c["fw"]:
            continue
        for at in range(c["N"] + (op == "twolevel")):
            for late in (False, True):
                if late and at != c["N"] - 1 and at != 0:
                    continue
                out.append((op, ("fail", at, late)))
    return out


def cases(tier, seed):
    return [{"cfg": c, "first": i, "depth": 3 if tier == "quick" else 4} for c in configurations(tier) for i in range(len(alphabet(c)))]


class World:
    def __init__(self, c):
        self.c = c
        self.coarse = P.make_mesh(c["mesh"])
        self.pr = P.Problem(c, msh=P.refine_uniform(self.coarse), omega=P.dst.DataDomain(indicator_function=P.half_indicator))
        self.st = st = self.pr.st
        st.u1_0.interpolate(P.initial(0)[0])
        st.u2_0.interpolate(P.initial(0)[1])
        st.prepare_precondition_gmres()
        st.prepare_coarse_grid_correction(self.coarse)
        self.solvers = []
        self.count = 0
        self.fault = None
        for mat, setter in ((st.get_slab_matrix(), st.set_solver_slab), (st.get_slab_matrix_first_slab(), st.set_solver_first_slab),
                            (st.get_spacetime_matrix_coarse(), st.set_solver_coarse)):
            s = P.LU(mat)
            s.fault = self._fault
            s0 = s.solve

            def solve(b, x, s=s, s0=s0):
                n = self.count
                self.count += 1
                if self.fault and self.fault[0] == n:
                    if self.fault[1]:
                        s0(b, x)
                        x.array[:] = x.array * 0.5 + 11.0
                    raise Failure("slab solver failed")
                s0(b, x)
            s.fault = None
            s.solve = solve
            setter(s)
        self.n = len(P.perm_of(st.fes))
        i = np.arange(self.n)
        # the second one has the norm, sum and extreme entries of the first, and both arrive in one vector object
        self.inputs = [np.cos(1.3 * i) + 0.01 * i, (np.cos(1.3 * i) + 0.01 * i)[::-1].copy()]
        self.vector = P.vec(self.inputs[0])
        if isinstance(getattr(st, "sample_pts_error", None), list):
            st.sample_pts_error = np.linspace(0, c["T"], 5).tolist()
        self.data = (np.array(st.u1_0.x.array), np.array(st.u2_0.x.array))

    def _fault(self, *a):
        pass

    def run(self, letter):
        """Result of one operation: list of arrays, or the exception text."""
        op, var = letter
        st = self.st
        self.count, self.fault = 0, None
        which = 0
        if isinstance(var, (tuple, list)):
            self.fault = (var[1], var[2])
        else:
            which = var
        x = self.vector
        x.array[:] = self.inputs[which]
        out = P.vec(np.full(self.n, -4.5))
        res = None
        try:
            if op in ("apply", "march", "improved", "twolevel"):
                {"apply": st.apply_spacetime_matrix, "march": st.pre_time_marching, "improved": st.pre_time_marching_improved,
                 "twolevel": st.pre_twolvl}[op](x, out)
                res = [np.array(out.array)]
            elif op == "transfer":
                nc = len(P.perm_of(st.fes_coarse))
                z = P.vec(np.arange(1.0, nc + 1))
                st.prolongation(z, out)
                y = P.vec(np.zeros(nc))
                st.restriction(y, out)
                res = [np.array(out.array), np.array(y.array), np.array(z.array)]
            elif op == "rhs":
                st.setup_rhs()
                res = [np.array(st.get_spacetime_rhs().array)]
            elif op == "errors":
                e = st.measured_errors(x)
                res = [np.array([float(e[k]) for k in sorted(e)])]
            elif op == "export":
                d = tempfile.mkdtemp(prefix="c16-")
                here = os.getcwd()
                os.chdir(d)
                try:
                    st.plot_para_view(x, name="r")
                    import json
                    res = []
                    for f in sorted(os.listdir(".")):
                        if f.endswith(".xdmf"):
                            j = json.load(open(f))
                            res += [np.array(u["values"], dtype=float) for u in j["functions"]]
                finally:
                    os.chdir(here)
                    shutil.rmtree(d)
            else:
                drawn.clear()
                if op == "plot":
                    st.plot(x, n_space=4, n_time_subdiv=2)
                else:
                    st.plot_error(x, n_space=4, n_time_subdiv=2)
                res = [a for d in drawn for a in d]
        except Failure:
            res = "failed"
        except Exception:
            if not (self.c["fw"] and op == "improved"):
                raise
            res = "refused"
        trouble = None
        if not np.array_equal(x.array, self.inputs[which]):
            trouble = "the vector passed in was modified"
        for f, want in zip((st.u1_0, st.u2_0), self.data):
            if not np.array_equal(f.x.array, want):
                trouble = "the initial data set on the problem were changed"
        return res, trouble


def run_case(case, rec):
    c = case["cfg"]
    letters = alphabet(c)
    first = letters[case["first"]]

    def fresh(a):
        w = World(c)
        return w.run(a)
    expected = {}
    for a in letters:
        try:
            res, trouble = branch(fresh, a)
        except Died as e:
            if "/dxss/" not in str(e) and "status" not in str(e):
                raise
            rec.fail(f"{a[0]}:fresh", f"{a} on a fresh object raises: {str(e)[-600:]}; {P.cfg_id(c)}", cfg=c)
            return
        if trouble:
            rec.fail(f"{a[0]}:trace", f"{trouble} by {a} on a fresh object; {P.cfg_id(c)}", cfg=c)
            return
        if isinstance(a[1], tuple) and res != "failed":
            rec.fail(f"{a[0]}:swallowed", f"{a[0]} returned a result although the slab solver failed (solve {a[1][1]}); {P.cfg_id(c)}", cfg=c)
            return
        expected[a] = res
    world = World(c)

    def compare(a, path):
        try:
            res, trouble = world.run(a)
        except Exception as e:  # noqa: BLE001
            return [(f"{a[0]}:raises", f"{a} after {path} raises {type(e).__name__}: {e}")]
        if trouble:
            return [(f"{a[0]}:trace", f"{trouble} by {a} after {path}")]
        want = expected[a]
        if isinstance(want, str) or isinstance(res, str) or len(res) != len(want):
            ok = res == want if isinstance(want, str) and isinstance(res, str) else False
            return [] if ok else [(f"{a[0]}:outcome", f"{a} after {path}: outcome differs from a fresh object's")]
        for r, e in zip(res, want):
            tol = 1e-8 if a[0] in ("march", "improved", "twolevel") else 1e-10
            s = np.abs(e).max() if e.size else 0.0
            if r.shape != e.shape or (e.size and not np.abs(r - e).max() <= tol * s + 1e-300):
                return [(f"{a[0]}:differs", f"{a} after {path} differs from a fresh object's by {np.abs(r - e).max() / (s or 1):.1e}")]
        return []

    def visit(a, path):
        fails = compare(a, path)
        path = (*path, a)
        n = 1
        if fails or len(path) == case["depth"]:
            return n, fails
        last = len(path) == case["depth"] - 1
        if last:
            # the final probe: every operation after this history, each from the same snapshot
            for b in letters:
                if isinstance(b[1], tuple):
                    continue
                m, f = branch(visit, b, path)
                n += m
                fails += f
        else:
            for b in letters:
                m, f = branch(visit, b, path)
                n += m
                fails += f
                if fails:
                    break
        return n, fails
    try:
        n, fails = branch(visit, first, ())
    except Died as e:
        rec.fail("died", f"{e}", cfg=c)
        return
    rec.step(n)
    rec.trace(n)
    # every sequence is a distinct history
    for i in range(n):
        rec.state(P.cfg_id(c), case["first"], i)
    for k, m in fails[:3]:
        rec.fail(k, f"{m}; {P.cfg_id(c)}", cfg=c)
    rec.sample({"cfg": P.cfg_id(c), "first": str(first), "histories": n})
