"""C15: explicit-state search over all orders of set-up and query requests."""
import itertools

import configs
import numpy as np
import stprob as P
import twolevel as TL
from forktree import Search, branch, fingerprint

LEVEL = "model_checking"
RULE = ("depth-first search over all reachable states of one space-time object under all public set-up and query requests (both "
        "matrix variants and their forms, right-hand side and its form, slab matrices and forms, coupling and mass matrices, "
        "preconditioner preparation, coarse grid preparation on two meshes, solver setting, operator and preconditioner "
        "applications), each branch in a forked snapshot; a state is which attributes exist together with the contents of all stored "
        "matrices, a transition one request compared with the result on a fresh object")
ASSUMPTIONS = ["the finite element library is replaced by a stand-in (fakefem/)", "states with the same existing attributes and stored "
               "matrices behave alike (scratch vectors are covered by C16)", "operations are requested after the preparation they need"]
TIMEOUT = 800


def cases(tier, seed):
    b = configs.Bag()
    for f, w in configs.FLAGS:
        b.add(q=1, qs=0, N=2, fw=f, wp=w, mesh=["interval", 2], omega="half")
    core = [{"cfg": c, "letters": "core"} for c in b.out]
    b = configs.Bag()
    for f, w in configs.FLAGS:
        b.add(q=0, qs=0, N=2, fw=f, wp=w, mesh=["interval", 1], omega="unfitted")
    forms = [{"cfg": c, "letters": "forms"} for c in b.out]
    if tier == "quick":
        return core + forms
    b = configs.Bag()
    for (f, w), (q, s), N in itertools.product(configs.FLAGS, ((0, 0), (1, 0), (2, 1), (1, 2)), (1, 2, 3)):
        b.add(q=q, qs=s, N=N, fw=f, wp=w, mesh=["interval", 2], omega="half" if N < 3 else "unfitted")
    b.add(q=1, qs=0, N=2, wp=True, mesh=["square", 1, 1], omega="half")
    return [{"cfg": c, "letters": "all"} for c in b.out] + core + forms


SETUP = ["matrix", "matrix-precond", "bfi", "bfi-precond", "rhs", "lfi", "slab", "slab-bfi", "slab-first", "slab-first-bfi", "coupling",
         "mass", "setup-rhs", "setup-slab", "setup-slab-no-jumps", "prepare", "coarse", "coarse2"]
CORE = ["matrix", "matrix-precond", "rhs", "slab", "slab-first", "prepare", "coarse", "apply", "march", "march-improved", "solvers", "twolevel"]
FORMS = ["matrix", "matrix-precond", "bfi", "bfi-precond", "rhs", "lfi", "slab", "slab-bfi", "slab-first", "slab-first-bfi", "coupling", "mass",
         "setup-rhs", "setup-slab", "setup-slab-no-jumps", "prepare", "apply", "solvers", "march-improved"]
OPS = ["apply", "march", "march-improved", "solvers", "twolevel"]


class World:
    def __init__(self, c):
        self.c = c
        self.coarse = P.make_mesh(c["mesh"])
        fine = P.refine_uniform(self.coarse)
        self.coarse2 = fine
        # a spatial function resolved by both meshes
        dom = P.dst.DataDomain(indicator_function=P.half_indicator, fitted=True) if c["omega"] == "half" else P.omega_of(c, fine)
        self.pr = P.Problem(c, msh=fine, omega=dom)
        self.st = self.pr.st
        n = len(P.perm_of(self.st.fes))
        i = np.arange(n)
        self.x = np.cos(1.3 * i) + 0.01 * i
        self.y = np.sin(0.9 * i + 1) - 0.02 * i

    def assembled(self, form, what):
        if what == "matrix":
            A = P.dst.assemble_matrix(form, bcs=[])
            A.assemble()
            return P.dense(A)
        b = P.fem.petsc.create_vector(form)
        P.fem.petsc.assemble_vector(b, form)
        return np.array(b.array)

    def do(self, a):
        st = self.st
        if a == "matrix":
            return P.dense(st.get_spacetime_matrix())
        if a == "matrix-precond":
            return P.dense(st.get_spacetime_matrix(precond=True))
        if a == "bfi":
            return self.assembled(st.get_spacetime_bfi(), "matrix")
        if a == "bfi-precond":
            return self.assembled(st.get_spacetime_bfi(precond=True), "matrix")
        if a == "rhs":
            return np.array(st.get_spacetime_rhs().array)
        if a == "lfi":
            return self.assembled(st.get_spacetime_lfi(), "vector")
        if a == "slab":
            return P.dense(st.get_slab_matrix())
        if a == "slab-bfi":
            return self.assembled(st.get_slab_bfi(), "matrix")
        if a == "slab-first":
            return P.dense(st.get_slab_matrix_first_slab())
        if a == "slab-first-bfi":
            return self.assembled(st.get_slab_bfi_first_slab(), "matrix")
        if a == "coupling":
            st.setup_coupling_matrix_between_slices()
            return P.dense(st.coupling_matrix_between_slices)
        if a == "mass":
            st.setup_scaled_mass_matrix_between_slices()
            return P.dense(st.scaled_mass_matrix_between_slices)
        if a == "setup-rhs":
            st.setup_rhs()
            return np.array(st.get_spacetime_rhs().array)
        if a == "setup-slab":
            st.setup_slab_matrix()
            return P.dense(st.get_slab_matrix())
        if a == "setup-slab-no-jumps":
            st.setup_slab_matrix(with_jumps=False)
            return P.dense(st.get_slab_matrix_first_slab())
        if a == "prepare":
            st.prepare_precondition_gmres()
            return np.array(st.get_spacetime_rhs().array)
        if a in ("coarse", "coarse2"):
            st.prepare_coarse_grid_correction(self.coarse if a == "coarse" else self.coarse2)
            A = st.get_spacetime_matrix_coarse()
            st.set_solver_coarse(P.LU(A))
            return P.dense(A)
        if a == "solvers":
            self.pr.set_solvers()
            return np.zeros(1)
        x = P.vec(self.x if a == "apply" else self.y)
        out = P.vec(np.full(len(self.x), 3.25))
        {"apply": st.apply_spacetime_matrix, "march": st.pre_time_marching, "march-improved": st.pre_time_marching_improved,
         "twolevel": st.pre_twolvl}[a](x, out)
        if not np.array_equal(x.array, self.x if a == "apply" else self.y):
            return np.zeros(0)
        return np.array(out.array)


NEED = {"apply": ("prepare",), "march": ("solvers",), "march-improved": ("prepare", "solvers"), "twolevel": ("prepare", "solvers", "coarse")}


def outcome(w, a):
    try:
        r = w.do(a)
        return ("ok", r.shape, r)
    except Exception as e:  # noqa: BLE001
        return ("raises", type(e).__name__, str(e)[:300])


def run_case(case, rec):
    c = case["cfg"]
    fresh = {}

    def reference(path):
        w = World(c)
        for p in path[:-1]:
            r = outcome(w, p)
            if r[0] != "ok":
                return r
        return outcome(w, path[-1])
    fitted = c["omega"] == "half"   # the coarse grid correction is for fitted domains
    for a in SETUP:
        if fitted or not a.startswith("coarse"):
            fresh[a] = branch(reference, [a])
    for a in OPS:
        if a == "twolevel" and not fitted:
            continue
        for co in ("coarse", "coarse2") if a == "twolevel" else ("coarse",):
            path = [*[p if p != "coarse" else co for p in NEED.get(a, ())], a]
            fresh[a, co] = branch(reference, path)
    for a, r in fresh.items():
        improved = "march-improved" in a and c["fw"]
        if r[0] != "ok" and not improved:
            rec.fail(f"fresh:{a}", f"request {a} on a fresh object {r[0]} {r[1:]}; {P.cfg_id(c)}", cfg=c)
        if r[0] == "ok" and improved:
            rec.fail("fresh:refusal", "improved marching accepts forward jumps")
    if rec.failures:
        return
    world = World(c)
    letters = {"all": SETUP + OPS, "core": CORE, "forms": FORMS}[case["letters"]]
    if not fitted:
        letters = [a for a in letters if not a.startswith("coarse")]
    def enabled(path):
        have = {("coarse" if p == "coarse2" else p) for p in path}
        return [a for a in letters if set(NEED.get(a, ())) <= have and (a != "solvers" or path.count("solvers") == 0)]

    def step(a, path):
        co = next((p for p in reversed(path) if p in ("coarse", "coarse2")), "coarse") if a == "twolevel" else "coarse"
        want = fresh[a, co] if a in OPS else fresh[a]
        got = outcome(world, a)
        if got[:2] != want[:2]:
            return [(f"{a}:{got[0]}", f"{a} after {path}: {got[:2] if got[0] == 'ok' else got}, fresh {want[:2]}; {P.cfg_id(c)}")]
        if got[0] == "ok" and a != "solvers":
            s = np.abs(want[2]).max() + 1e-300
            tol = 1e-7 if a in ("march", "march-improved", "twolevel") else 1e-11
            err = np.abs(got[2] - want[2]).max() if want[2].size else 0.0
            if not err <= tol * s:
                return [(f"{a}:differs", f"{a} after {path} differs from a fresh object's by {err / s:.1e}; {P.cfg_id(c)}")]
        return []

    def state():
        return (fingerprint(world.st), sum(1 << i for i, x in enumerate(world.done) if x))
    world.done = [False]
    seen, edges, fails, longest = Search(enabled, step, state, limit=600 if case["letters"] != "all" else 20000).run()
    for s in seen:
        rec.state(P.cfg_id(c), s)
    if len(seen) >= 600 and case["letters"] != "all":
        rec.count("state_limit_reached")
    rec.step(edges)
    rec.trace(edges)
    for k, m, path in fails[:3]:
        rec.fail(k, m, path=path, cfg=c)
    rec.sample({"cfg": P.cfg_id(c), "states": len(seen), "requests": edges, "longest path": longest})
