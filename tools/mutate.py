#!/opt/venv/bin/python
"""Development tool: systematic mutants of one function, run against the checks that should notice them.

mutate.py FILE FUNCTION CHECK[,CHECK..] [--max N] [--slots N] [--skip N]
Works on scratch copies of /repo/src and /verif (VERIF_REPO); prints the surviving mutants. No check uses this.
"""
import ast
import copy
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading

SWAP_NAMES = {"j": "k", "k": "j", "u1": "u2", "u2": "u1", "w1": "w2", "w2": "w1", "y1": "y2", "y2": "y1", "z1": "z2", "z2": "z1",
              "int_idx_q": "int_idx_qstar", "int_idx_qstar": "int_idx_q", "coupling_idx_q": "coupling_idx_qstar",
              "u1_p": "u2_p", "u2_p": "u1_p", "w1_p": "w2_p", "w2_p": "w1_p", "y1_p": "y2_p", "z1_p": "z2_p", "y2_p": "y1_p", "z2_p": "z1_p",
              "gamma_dual": "gamma_primal", "gamma_primal": "gamma_primal_jump", "gamma_primal_jump": "gamma_data", "gamma_data": "gamma_dual",
              "dx": "ds", "ds": "dx", "phis": "chis", "chis": "phis", "u1_c": "u2_c", "w1_c": "w2_c"}
SWAP_ATTR = {"q": "qstar", "qstar": "q", "k": "kstar", "kstar": "k", "u1_0": "u2_0", "u2_0": "u1_0", "u1_0_pre": "u2_0_pre", "u2_0_pre": "u1_0_pre",
             "phi_trial": "dt_phi_trial", "dt_phi_trial": "phi_trial", "v": "dvdt", "dvdt": "v", "qr": "qr_ho", "qr_ho": "qr", "fes": "fes_p", "dofmaps_pre": "dofmaps_full",
             "SolverFirstSlab": "solver_slab", "solver_slab": "SolverFirstSlab", "fes_u1_0": "fes_u2_0", "tmp3_sol": "tmp4_sol", "tmp4_sol": "tmp3_sol", "tmp1_coarse": "tmp2_coarse",
             "slab_matrix": "slab_matrix_no_dg_jumps", "well_posed": "jumps_in_fw_problem", "jumps_in_fw_problem": "well_posed", "w1_p": "w2_p", "y1_p": "y2_p",
             "vec_0_bnd_in": "vec_0_bnd_out", "vec_coupling1": "vec_coupling2", "u_node_fine": "u_node_fine_dual", "u_node_coarse": "u_node_coarse_dual"}
SWAP_STR = {"M_time_q_q": "DM_time_q_q", "DM_time_q_q": "DDM_time_q_q", "M_time_q_qstar": "DM_time_q_qstar", "DM_time_q_qstar": "M_time_q_qstar",
            "M_time_qstar_qstar": "M_time_q_qstar", "data": "dual", "dual": "primal", "primal": "primal-jump", "primal-jump": "data"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def mutants(fn):
    """Yields (description, mutated copy of the function)."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mut(f):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            return c if f(m, c) is not False else None
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def f(m, c): m.ops[0] = CMP[type(m.ops[0])]()
            yield f"{line} cmp {ast.unparse(n)[:60]}", mut(f)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def f(m, c): m.op = BIN[type(m.op)]()
            yield f"{line} op {ast.unparse(n)[:60]}", mut(f)
        elif isinstance(n, ast.AugAssign) and type(n.op) in (ast.Add, ast.Sub):
            def f(m, c): m.op = BIN[type(m.op)]()
            yield f"{line} aug {ast.unparse(n)[:60]}", mut(f)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for d in (1, -1) if isinstance(n.value, int) else (0.5,):
                def f(m, c): m.value = m.value + d if isinstance(m.value, int) else (m.value * 0.5 if m.value else 1.0)
                yield f"{line} const {n.value}{d:+}", mut(f)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m, c): m.value = not m.value
            yield f"{line} bool", mut(f)
        elif isinstance(n, ast.Constant) and n.value in SWAP_STR:
            def f(m, c): m.value = SWAP_STR[m.value]
            yield f"{line} str {n.value}", mut(f)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP_NAMES:
            def f(m, c): m.id = SWAP_NAMES[m.id]
            yield f"{line} name {n.id}", mut(f)
        elif isinstance(n, ast.Attribute) and n.attr in SWAP_ATTR:
            def f(m, c): m.attr = SWAP_ATTR[m.attr]
            yield f"{line} attr {ast.unparse(n)}", mut(f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m, c): m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.UAdd()
            if isinstance(n.op, ast.USub):
                yield f"{line} sign {ast.unparse(n)[:40]}", mut(f)
        if isinstance(n, (ast.If, ast.IfExp)):
            for val in (True, False):
                def f(m, c): m.test = ast.Constant(val)
                yield f"{line} if {ast.unparse(n.test)[:50]} -> {val}", mut(f)
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for b, st in enumerate(body):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) == "print":
                            continue
                        def f(m, c): getattr(m, field)[b] = ast.copy_location(ast.Pass(), getattr(m, field)[b])
                        yield f"{st.lineno} del {ast.unparse(st)[:60]}", mut(f)


def find(tree, name):
    parts = name.split(".")
    node = tree
    for p in parts:
        node = next(x for x in node.body if getattr(x, "name", None) == p)
    return node


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
    file, func, checks = args[0], args[1], args[2].split(",")
    src = open(f"/repo/src/dxss/{file}").read()
    tree = ast.parse(src)
    fn = find(tree, func)
    lines = src.splitlines(keepends=True)
    lo = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
    indent = re.match(r" *", lines[fn.lineno - 1]).group()
    out = []
    seen = set()
    for desc, m in mutants(fn):
        if m is None:
            continue
        text = ast.unparse(m)
        if text == ast.unparse(fn) or text in seen:
            continue
        seen.add(text)
        out.append((desc, text))
    total = len(out)
    mx = int(opt.get("max", 10**9))
    if total > mx:
        out = [out[i * total // mx] for i in range(mx)]
    todo = queue.Queue()
    for i, o in enumerate(out):
        todo.put((i, *o))
    res = {"killed": 0, "survived": [], "error": []}
    root = tempfile.mkdtemp(prefix="mut-")

    def slot(s):
        v, r = f"{root}/v{s}", f"{root}/r{s}"
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "out", "evidence", "__pycache__"))
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = dict(os.environ, VERIF_REPO=r, VERIF_FAILFAST=opt.get("workers", "2"))
        while True:
            try:
                i, desc, text = todo.get_nowait()
            except queue.Empty:
                return
            body = "".join(indent + x + "\n" if x else "\n" for x in text.splitlines())
            open(f"{r}/src/dxss/{file}", "w").write("".join(lines[:lo]) + body + "".join(lines[fn.end_lineno:]))
            codes = []
            for c in checks:
                try:
                    p = subprocess.run(["nice", "-n", "10", "bash", f"{v}/check.sh", c, "quick"], env=env, capture_output=True, text=True, timeout=1200)
                    codes.append(p.returncode)
                except subprocess.TimeoutExpired:
                    codes.append("timeout")
                if codes[-1] == 1:
                    break
            if 1 in codes:
                res["killed"] += 1
            elif codes == [0] * len(checks):
                res["survived"].append(desc)
                print("  SURVIVED", func, desc, flush=True)
            else:
                res["error"].append((desc, codes))
                print("  ERROR", func, desc, codes, flush=True)
    ts = [threading.Thread(target=slot, args=(s,)) for s in range(int(opt.get("slots", 3)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(root)
    print(f"{file} {func} {checks}: {len(out)} of {total} mutants, killed {res['killed']}, survived {len(res['survived'])}, errors {len(res['error'])}", flush=True)


main()
