"""C36: two space-time objects used alternately in one process."""
import copy
import json
import os
import shutil
import tempfile

import matplotlib
import matplotlib.axes
import numpy as np
import stprob as P
from dolfinx import _env
from forktree import Died, branch

from dxss.gmres import get_gmres_solution

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

LEVEL = "model_checking"
RULE = ("for every pair of problems that differ in one respect (or share their inputs, or are equal) every interleaving, up to a bound on the number of "
        "switches between the objects, of their life cycles (build, assemble, prepare, operate, iterate, two-level, report), every prefix in its own forked snapshot; "
        "a state is a position in both life cycles with the history that led to it, a transition one life cycle step, whose results are compared with those of the "
        "object used alone in a process; and for every set of time orders, flags and weights of a menu a second object made from the same inputs after 1, 3 and all steps of the first")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "slab and coarse solvers are exact dense factorisations",
               "error measurement uses a shortened list of sample times if the object exposes it"]
TIMEOUT = 800
drawn = []
_orig = matplotlib.axes.Axes.pcolormesh


def _record(self, *args, **kw):
    drawn.append([np.array(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)) for a in args[:3]])
    return _orig(self, *args, **kw)


matplotlib.axes.Axes.pcolormesh = _record
plt.colorbar = lambda *a, **k: None
plt.show = lambda *a, **k: plt.close("all")

FINE = ["build", "assemble", "prepare", "operate", "iterate", "twolevel", "report"]
BASE = {"mesh": ["interval", 2], "q": 1, "qs": 1, "N": 2, "T": 1.0, "wp": True, "omega": "half", "numbering": "permuted"}
OTHER = {
    "equal": {}, "end time": {"T": 2.0}, "weights": {"stab": {"data": 3.0, "dual": 0.5, "primal": 0.25, "primal-jump": 7.0}},
    "time orders": {"q": 2, "qs": 0}, "dual time order": {"qs": 0}, "dual space order": {"ks": 2}, "space order": {"k": 2}, "slabs": {"N": 3},
    "initial data flag": {"wp": False}, "forward jumps": {"fw": True}, "mesh": {"mesh": ["irregular", 2]}, "data domain": {"omega": "rough"},
    "solution": {"sol": "wave"}, "separate inputs": {}, "initial values": {}, "weights and end time": {"T": 2.0, "stab": {"data": 10.0, "dual": 1.0, "primal": 0.1, "primal-jump": 4.0}}, "dimension": {"mesh": ["square", 1, 1], "sol": "poly"},
}
QUICK = ["equal", "end time", "weights", "time orders", "mesh", "data domain", "solution", "initial data flag", "separate inputs", "initial values", "forward jumps", "slabs"]


WEIGHTS = [{"data": 3.0, "dual": 2.5, "primal": 1.5, "primal-jump": 7.0}, {"data": 1e4, "dual": 0.5, "primal": 1e-3, "primal-jump": 0.2},
           {"data": 0.25, "dual": 1e2, "primal": 2.0, "primal-jump": 50.0}]


def cases(tier, seed):
    out = [{"pair": "afterwards", "weights": w, "first": {"q": q, "qs": qs, "fw": fw, "wp": wp, "N": n, **extra}}
           for w in WEIGHTS[:2 if tier == "quick" else 3] for q, qs in ((1, 0), (2, 1), (0, 0)) + (((1, 1), (2, 2), (2, 0)) if tier != "quick" else ())
           for fw in (False, True) for wp in (True, False) for n in ((2,) if tier == "quick" else (1, 2, 5))
           for extra in (({},) if tier == "quick" else ({}, {"T": 3.0}, {"k": 2, "ks": 2}, {"sol": "wave"}))]
    for name in OTHER if tier != "quick" else QUICK:
        for first in (0, 1):
            out.append({"pair": name, "first": first, "switches": (3 if name in ("equal", "time orders", "separate inputs") else 2) if tier == "quick" else 4})
    return out


class Life:
    def __init__(self, cfg, which, shared=None):
        self.c, self.which, self.shared = P.default_cfg(**cfg), which, shared
        self.pos = 0
        self.kept = []        # (live object, content on delivery)

    def keep(self, *mats):
        for m in mats:
            self.kept.append((m, P.dense(m)))

    def step(self):
        name = FINE[self.pos]
        self.pos += 1
        _env.numbering = self.c["numbering"]
        res = getattr(self, name)()
        for live, content in self.kept:
            res.append(np.abs(P.dense(live) - content).max(keepdims=True).ravel())
        if self.pos > 1:
            res += [np.array(self.st.u1_0.x.array), np.array(self.st.u2_0.x.array)]
        return name, [np.array(r, dtype=float) for r in res]

    def build(self):
        c = self.c
        s = self.shared or {}
        self.coarse = s.get("coarse") or P.make_mesh(c["mesh"])
        self.pr = P.Problem(c, msh=s.get("mesh") or P.refine_uniform(self.coarse), omega=s.get("omega") or (
            P.dst.DataDomain(indicator_function=P.half_indicator) if c["omega"] == "half" else P.omega_of(c, None)), setup=False)
        if s:
            self.pr.st = P.dst.SpaceTime(s["ot"], s["os"], N=c["N"], T=c["T"], t=0, msh=s["mesh"], stabilisation_terms=s["stab"], omega=s["omega"],
                                         solution=s["sol"], parameters=s["par"])
        self.st = st = self.pr.st
        st.setup_spacetime_finite_elements()
        u0, u1 = P.initial(self.which)
        st.u1_0.interpolate(u0)
        st.u2_0.interpolate(u1)
        if isinstance(getattr(st, "sample_pts_error", None), list):
            st.sample_pts_error = np.linspace(0, c["T"], 5).tolist()
        self.n = len(P.perm_of(st.fes))
        self.x = np.cos((1.3 + self.which) * np.arange(self.n)) + 0.01 * np.arange(self.n)
        return [P.perm_of(st.fes)]

    def assemble(self):
        out = [P.dense(self.st.get_spacetime_matrix()), P.dense(self.st.get_spacetime_matrix(precond=True)), np.array(self.st.get_spacetime_rhs().array)]
        self.full = self.st.get_spacetime_matrix()
        self.keep(self.full)
        return [*out, P.dense(self.full)]

    def prepare(self):
        st = self.st
        st.prepare_precondition_gmres()
        self.pr.set_solvers()
        self.keep(st.get_slab_matrix(), st.get_slab_matrix_first_slab())
        return [P.dense(st.get_slab_matrix()), P.dense(st.get_slab_matrix_first_slab()), np.array(st.get_spacetime_rhs().array)]

    def operate(self):
        st, out = self.st, []
        for f in (st.apply_spacetime_matrix, st.pre_time_marching, None if self.c["fw"] else st.pre_time_marching_improved):
            if f:
                y = P.vec(np.full(self.n, -4.5))
                x = P.vec(self.x)
                f(x, y)
                out += [y.array, x.array]
        return out

    def iterate(self):
        st = self.st
        if self.c["fw"]:
            return []
        b = st.get_spacetime_rhs()
        u, r = get_gmres_solution(P.dst.SpaceTimePETScMatrixWrapper(st), b, P.dst.SpaceTimePETScPreconditionerWrapper(st), maxsteps=60, reltol=1e-8, printrates=False)
        return [u.array, r.array, b.array]

    def twolevel(self):
        st = self.st
        st.prepare_coarse_grid_correction(self.coarse)
        st.set_solver_coarse(P.LU(st.get_spacetime_matrix_coarse()))
        y = P.vec(np.full(self.n, 2.5))
        st.pre_twolvl(P.vec(self.x), y)
        self.keep(st.get_spacetime_matrix_coarse())
        return [P.dense(st.get_spacetime_matrix_coarse()), y.array]

    def report(self):
        st = self.st
        e = st.measured_errors(P.vec(self.x))
        out = [np.array([float(e[k]) for k in sorted(e)])]
        d = tempfile.mkdtemp(prefix="c36-")
        here = os.getcwd()
        os.chdir(d)
        try:
            st.plot_para_view(P.vec(self.x), name="r")
            for f in sorted(os.listdir(".")):
                if f.endswith(".xdmf"):
                    out += [np.array(u["values"], dtype=float) for u in json.load(open(f))["functions"]]
        finally:
            os.chdir(here)
            shutil.rmtree(d)
        if self.c["mesh"][0] in ("interval", "irregular"):
            drawn.clear()
            st.plot(P.vec(self.x), n_space=3, n_time_subdiv=2)
            st.plot_error(P.vec(self.x), n_space=3, n_time_subdiv=2)
            out += [a for dr in drawn for a in dr]
        return out


def pair(name, cfgs=None):
    """Two lives, created but not started; all inputs in which the problems agree are shared objects, except for the pair 'separate inputs'."""
    cfgs = cfgs or [copy.deepcopy(BASE), {**copy.deepcopy(BASE), **OTHER[name]}]
    made = {}

    def once(kind, make, *keys):
        key = (kind, repr(keys))
        if key not in made:
            made[key] = make()
        return made[key]
    lives = []
    for i, c in enumerate(cfgs):
        shared = None
        if name != "separate inputs":
            d = P.default_cfg(**c)
            coarse = once("coarse", lambda: P.make_mesh(d["mesh"]), d["mesh"])
            mesh = once("mesh", lambda: P.refine_uniform(coarse), d["mesh"])
            half = d["omega"] == "half"
            shared = {
                "coarse": coarse, "mesh": mesh,
                "omega": once("omega", lambda: P.dst.DataDomain(indicator_function=P.half_indicator) if half else P.omega_of(d, None), d["omega"]),
                "stab": once("stab", lambda: dict(d["stab"] or P.STAB), d["stab"]), "sol": once("sol", lambda: P.dst.ValueAndDerivative(*P.sol_of(d)), d["sol"]),
                "par": once("par", lambda: P.dst.ProblemParameters(jumps_in_fw_problem=d["fw"], well_posed=d["wp"]), d["fw"], d["wp"]),
                "os": once("os", lambda: P.dst.OrderSpace(d["k"], d["ks"]), d["k"], d["ks"]), "ot": once("ot", lambda: P.dst.OrderTime(d["q"], d["qs"]), d["q"], d["qs"])}
        lives.append(Life(c, 1 if name == "initial values" and i else 0, shared))
    return lives


def alone(name, i, cfgs=None):
    life = pair(name, cfgs)[i]
    return [life.step()[1] for _ in FINE]


def one_after_the_other(name, cfgs):
    """Per number of steps of the first object (each in its own snapshot): what the second then delivers in its whole life."""
    first, second = pair(name, cfgs)
    out = []
    for k in range(1, len(FINE) + 1):
        first.step()
        if k in (1, 3, len(FINE)):
            out.append((k, branch(lambda: [second.step() for _ in FINE])))
    return out


def afterwards(case, rec):
    cfgs = [{**copy.deepcopy(BASE), **case["first"], "stab": dict(case["weights"])}, {**copy.deepcopy(BASE), "stab": dict(case["weights"])}]
    if "sol" in case["first"]:
        cfgs[1]["sol"] = case["first"]["sol"]
    label = f"{P.cfg_id(P.default_cfg(**cfgs[0]))}, then {P.cfg_id(P.default_cfg(**cfgs[1]))} from the same weights, mesh, data domain and solution"
    try:
        want = branch(alone, "afterwards", 1, cfgs)
        got = branch(one_after_the_other, "afterwards", cfgs)
    except Died as e:
        if "/dxss/" not in str(e):
            raise
        rec.fail("afterwards:raises", f"{label}: {str(e)[-700:]}")
        return
    for k, steps in got:
        rec.trace()
        for (step, res), w in zip(steps, want):
            rec.step()
            rec.state(repr(case), k, step)
            bad = differs(res, w, 1e-7 if step in ("operate", "iterate", "twolevel") else 1e-10)
            if bad:
                rec.fail(f"afterwards:{step}", f"{label}: after '{FINE[k - 1]}' of the first object '{step}' of the second gives {bad} from that object used alone")
                return
    rec.sample({"first": case["first"], "weights": case["weights"], "points": [k for k, _ in got]})


def differs(got, want, tol):
    if len(got) != len(want):
        return "another number of results"
    for g, w in zip(got, want):
        if g.shape != w.shape:
            return "results of another shape"
        s = max(np.abs(w).max(), 1e-300) if w.size else 1.0
        if w.size and not np.abs(g - w).max() <= tol * s + 1e-13:
            return f"a difference of {np.abs(g - w).max() / s:.1e}"
    return None


def run_case(case, rec):
    name = case["pair"]
    if name == "afterwards":
        afterwards(case, rec)
        return
    want = []
    for i in (0, 1):
        try:
            want.append(branch(alone, name, i))
        except Died as e:
            if "/dxss/" not in str(e):
                raise
            rec.fail("alone", f"object {i} of the pair '{name}' alone raises: {str(e)[-700:]}")
            return
    lives = pair(name)

    def visit(i, path, switches):
        """Executes the next step of life i in this process; then all continuations."""
        path = path + "AB"[i]
        try:
            step, got = lives[i].step()
        except Exception as e:  # noqa: BLE001
            return 1, 1, [(f"{FINE[lives[i].pos - 1]}:raises", f"step {path} raises {type(e).__name__}: {e}")]
        bad = differs(got, want[i][FINE.index(step)], 1e-7 if step in ("operate", "iterate", "twolevel") else 1e-10)
        if bad:
            return 1, 1, [(f"{step}:differs", f"schedule {path}: '{step}' gives {bad} from the object used alone")]
        nodes, ends, fails = 1, 0, []
        todo = [j for j in (i, 1 - i) if lives[j].pos < len(FINE) and (j == i or switches > 0)]
        for j in todo:
            n, e, f = branch(visit, j, path, switches - (j != i))
            nodes += n
            ends += e
            fails += f
            if len(fails) > 2:
                break
        return nodes, ends + (not todo), fails
    try:
        n, ends, fails = branch(visit, case["first"], "", case["switches"])
    except Died as e:
        if "/dxss/" not in str(e) and "status" not in str(e):
            raise
        rec.fail("died", f"pair '{name}': {str(e)[-800:]}")
        return
    rec.step(n)
    rec.trace(ends)
    for i in range(n):
        rec.state(name, case["first"], i)
    for k, m in fails[:3]:
        rec.fail(k, f"pair '{name}' (A: {P.cfg_id(lives[0].c)}, B: {P.cfg_id(lives[1].c)}; life cycle {', '.join(FINE)}): {m}", pair=name)
    rec.sample({"pair": name, "first": "AB"[case["first"]], "schedules": ends})
