"""C39: incomplete set-up is refused or harmless, and can be completed afterwards."""
import itertools
import os
import shutil
import tempfile

import matplotlib
import numpy as np
import stprob as P
from forktree import Died, branch

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

plt.show = lambda *a, **k: plt.close("all")

LEVEL = "model_checking"
RULE = ("every sequence, up to a length, and every subset of the set-up steps (finite elements with initial data, preconditioner preparation, the two slab solvers, coarse "
        "grid, coarse solver), a step that is refused included, each followed by all operations in two orders, which must be right or refused, then by completing the set-up "
        "and all operations, which must be right; a state is a set-up sequence, a transition one operation")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "slab and coarse solvers are exact dense factorisations"]
TIMEOUT = 800
STEPS = "FPGHCK"
CONFIGS = {"plain": {}, "well posed": {"wp": True}, "one slab": {"N": 1, "wp": True}, "orders": {"q": 2, "qs": 0, "k": 2}, "dual order": {"ks": 2, "N": 3}, "forward": {"fw": True}}


def cases(tier, seed):
    out = []
    for name in ("plain", "well posed", "one slab", "orders") if tier == "quick" else CONFIGS:
        full = 6 if tier != "quick" else 3 if name == "well posed" else 2
        seqs = [s for n in range(full + 1) for s in itertools.permutations(STEPS, n)]
        seqs += [s for n in range(full + 1, 7) for s in itertools.combinations(STEPS, n)]
        seqs = ["".join(s) for s in seqs]
        for i in range(0, len(seqs), 20):
            out.append({"config": name, "sequences": seqs[i:i + 20]})
    return out


def ops_of(c):
    ops = ["full", "triangular", "slab", "first", "rhs", "apply", "precond", "improved", "errors", "files", "prolong", "restrict", "qop", "twolevel", "coarse"]
    return [o for o in ops if not (c["fw"] and o in ("improved", "slab", "first", "precond", "twolevel"))]


class World:
    def __init__(self, c):
        self.c = P.default_cfg(**c)
        self.coarse = P.make_mesh(self.c["mesh"])
        self.pr = P.Problem(self.c, msh=P.refine_uniform(self.coarse), omega=P.dst.DataDomain(indicator_function=P.half_indicator), setup=False)
        self.st = self.pr.st
        if isinstance(getattr(self.st, "sample_pts_error", None), list):
            self.st.sample_pts_error = np.linspace(0, self.c["T"], 4).tolist()
        self.done = set()

    def step(self, s, solvers):
        st = self.st
        if s == "F":
            st.setup_spacetime_finite_elements()
            if self.c["wp"]:
                self.pr.set_initial()
        elif s == "P":
            st.prepare_precondition_gmres()
        elif s == "G":
            st.set_solver_slab(P.LU(solvers["slab"]))
        elif s == "H":
            st.set_solver_first_slab(P.LU(solvers["first"]))
        elif s == "C":
            st.prepare_coarse_grid_correction(self.coarse)
        elif s == "K":
            st.set_solver_coarse(P.LU(solvers["coarse"]))
        self.done.add(s)

    def op(self, name, size, csize):
        st = self.st
        x = np.cos(1.7 * np.arange(size)) + 0.1
        xc = np.sin(1.1 * np.arange(csize)) + 0.2
        if name == "full":
            return [P.dense(st.get_spacetime_matrix())]
        if name == "triangular":
            return [P.dense(st.get_spacetime_matrix(precond=True))]
        if name == "slab":
            return [P.dense(st.get_slab_matrix())]
        if name == "first":
            return [P.dense(st.get_slab_matrix_first_slab())]
        if name == "rhs":
            return [st.get_spacetime_rhs().array.copy()]
        if name == "coarse":
            return [P.dense(st.get_spacetime_matrix_coarse())]
        if name == "errors":
            e = st.measured_errors(P.vec(x))
            return [np.array([float(e[k]) for k in sorted(e)])]
        if name == "files":
            here, d = os.getcwd(), tempfile.mkdtemp(prefix="c39-")
            os.chdir(d)
            try:
                import json
                st.plot_para_view(P.vec(x), name="r")
                return [np.array(u["values"], dtype=float) for f in sorted(os.listdir(".")) if f.endswith(".xdmf") for u in json.load(open(f))["functions"]]
            finally:
                os.chdir(here)
                shutil.rmtree(d)
        if name == "prolong":
            y = P.vec(np.full(size, 7.5))
            st.prolongation(P.vec(xc), y)
            return [y.array.copy()]
        if name == "restrict":
            y = P.vec(np.full(csize, 7.5))
            st.restriction(y, P.vec(x))
            return [y.array.copy()]
        f = {"apply": st.apply_spacetime_matrix, "precond": st.pre_time_marching, "improved": st.pre_time_marching_improved, "qop": st.q_op, "twolevel": st.pre_twolvl}[name]
        y = P.vec(np.full(size, -3.5))
        f(P.vec(x), y)
        return [y.array.copy()]


def reference(c):
    """Results of every operation on a completely set-up object of its own; the matrices are its own as well."""
    w = World(c)
    w.step("F", None)
    w.step("P", None)
    w.step("C", None)
    st = w.st
    solvers = {"slab": P.dense(st.get_slab_matrix()), "first": P.dense(st.get_slab_matrix_first_slab()), "coarse": P.dense(st.get_spacetime_matrix_coarse())}
    for s in "GHK":
        w.step(s, solvers)
    size, csize = len(P.perm_of(st.fes)), len(solvers["coarse"])
    return solvers, size, csize, {o: w.op(o, size, csize) for o in ops_of(w.c)}


def wrong(got, want):
    if len(got) != len(want):
        return "another number of results"
    for g, w in zip(got, want):
        if g.shape != w.shape:
            return "results of another shape"
        if w.size and not np.abs(g - w).max() <= 1e-7 * np.abs(w).max() + 1e-12:
            return f"results off by {np.abs(g - w).max() / np.abs(w).max():.1e}"
    return None


def explore(c, seq, reverse, ref):
    """In a forked child: the sequence, all operations, completion, all operations. Returns (operations, refused, failures)."""
    solvers, size, csize, want = ref
    w = World(c)
    log, count, refused, fails = [], 0, 0, []
    for s in seq:
        try:
            w.step(s, solvers)
            log.append(s)
        except Exception as e:  # noqa: BLE001
            log.append(f"{s} refused ({type(e).__name__})")
    names = list(want)[::-1] if reverse else list(want)
    for o in names:
        count += 1
        try:
            got = w.op(o, size, csize)
        except Exception:  # noqa: BLE001
            refused += 1
            log.append(f"{o} refused")
            continue
        bad = wrong(got, want[o])
        if bad:
            fails.append((f"{o}:incomplete", f"after {', '.join(log) or 'nothing'}: '{o}' silently gives {bad}"))
    for s in STEPS:
        if s not in w.done:
            try:
                w.step(s, solvers)
            except Exception as e:  # noqa: BLE001
                fails.append((f"{s}:completion", f"after {', '.join(log)}: completing the set-up with '{s}' raises {type(e).__name__}: {e}"))
                return count, refused, fails
    for o in names:
        count += 1
        try:
            bad = wrong(w.op(o, size, csize), want[o])
        except Exception as e:  # noqa: BLE001
            bad = f"{type(e).__name__}: {e}"
        if bad:
            fails.append((f"{o}:completed", f"after {', '.join(log)}, then completing the set-up: '{o}' gives {bad}"))
    return count, refused, fails


def run_case(case, rec):
    c = CONFIGS[case["config"]]
    try:
        ref = branch(reference, c)
    except Died as e:
        if "/dxss/" not in str(e):
            raise
        rec.fail("reference", f"{case['config']}: a completely set-up object raises: {str(e)[-700:]}")
        return
    for seq in case["sequences"]:
        for reverse in (False, True):
            n, refused, fails = branch(explore, c, seq, reverse, ref)
            rec.step(n)
            rec.trace()
            rec.state(case["config"], seq, reverse)
            rec.count("refused_operations", refused)
            for k, m in fails[:2]:
                rec.fail(k, f"{case['config']} {P.cfg_id(P.default_cfg(**c))}: {m}", sequence=seq)
    rec.sample({"config": case["config"], "sequences": len(case["sequences"])})
