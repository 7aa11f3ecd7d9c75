"""C25: every generated mesh is a conforming triangulation of its domain that resolves the interfaces."""
import itertools

import meshing as G
import numpy as np
from runner import guarded

LEVEL = "model_checking"
RULE = ("every generator x every parameter of its menu x every size factor (run through the real CAD kernel and mesh exchange files); a "
        "state is one mesh, a transition one pair of size factors; every cell, facet and node is checked")
ASSUMPTIONS = ["DOLFINx (reading the mesh files, creating and refining meshes) is replaced by a stand-in (fakefem/); gmsh and meshio are real",
               "parameters for which the documented parts are not empty"]
TIMEOUT = 240
SIZES = {"quick": (5.0, 4.0, 3.0, 2.0, 1.5, 1.25, 1.0, 0.75, 0.5, 0.35), "thorough": (8.0, 5.0, 4.0, 3.0, 2.5, 2.0, 1.5, 1.25, 1.0, 0.75, 0.5, 0.35, 0.25, 0.15)}
SIZES3 = {"quick": (5.0, 4.0, 3.0, 2.0, 1.5, 1.25), "thorough": (8.0, 5.0, 4.0, 3.0, 2.0, 1.5, 1.25, 1.0, 0.7, 0.5)}


def cases(tier, seed):
    out = []
    for name, (_, dom, _, menu, _) in G.GENERATORS.items():
        for p in menu:
            out.append({"name": name, "params": p, "sizes": list((SIZES3 if len(dom[0]) == 3 else SIZES)[tier])})
    # every combination of parameters of finer menus, at two sizes
    for eta in (0.0, 0.3125, 0.77777, 1.25, 1.4, 1.5) if tier == "quick" else (-0.5, 0.0, 0.3125, 0.75, 0.77777, 1.0, 1.25, 1.3, 1.4, 1.5):
        out += [{"name": "get_mesh_inclusion_square", "grid": [
            {"eta": eta, "x_l": x_l, "x_r": x_r, "y_l": y_l, "y_r": y_r}
            for x_l, x_r, y_l, y_r in itertools.product((-1.5, -1.25, -1.0, -0.40625, *(() if tier == "quick" else (-0.75,))), (0.3, 0.75, 1.125, 1.25, 1.5), (-1.5, -1.25, -1.0625, -0.75), (0.5, 1.0, 1.25, 1.36, 1.5))
            if y_l < eta and (y_r >= eta or (eta == 1.5 and y_r > y_l))], "sizes": [3.0] if tier == "quick" else [3.0, 1.0]}]
    steps = 40 if tier == "quick" else 200
    for name, lo, hi in (("get_mesh_bottom_data", 0.27, 0.98), ("get_mesh_hierarchy_fitted_disc", 0.27, 0.94)):
        out += [{"name": name, "grid": [{"eta": lo + (hi - lo) * i / steps} for i in range(steps + 1)], "sizes": [4.0, 2.0]}]
    return out


def grid(case, rec):
    name = case["name"]
    _, dom, boxes, _, _ = G.GENERATORS[name]
    with G.Scratch():
        for params in case["grid"]:
            for h in (None, *case["sizes"]):
                who = f"{name}({params}, size factor {h or 'default'})"
                ok, r = guarded(rec, f"raises:{name}", G.generate, name, h, **params)
                if not ok:
                    return
                mesh = G.as_list(r)[0]
                rec.state(name, params, h)
                rec.trace()
                rec.count("cells_checked", len(mesh._fe.cells))
                for key, text in G.problems(mesh, dom, boxes(**params)):
                    rec.fail(f"{name}:{key}", f"{who}: {text}")
    rec.sample({"generator": name, "parameter sets": len(case["grid"])})


def run_case(case, rec):
    if "grid" in case:
        grid(case, rec)
        return
    name, params = case["name"], case["params"]
    _, dom, boxes, _, _ = G.GENERATORS[name]
    parts = boxes(**{k: v for k, v in params.items() if k != "order"})
    prev = []
    with G.Scratch():
        for h in [None, *case["sizes"]]:
            who = f"{name}({params}, size factor {h or 'default'})"
            ok, r = guarded(rec, f"raises:{name}", G.generate, name, h, **params)
            if not ok:
                return
            mesh = G.as_list(r)[0]
            rec.state(name, params, h)
            rec.trace()
            for key, text in G.problems(mesh, dom, parts, 1.0 if name == "get_mesh_inclusion" else None):
                rec.fail(f"{name}:{key}", f"{who}: {text}")
            if name == "get_mesh_inclusion":
                want = params.get("order", 2)
                rec.expect(mesh.high_order[2] == want, f"{name}:order", f"{who}: geometry of order {mesh.high_order[2]} instead of {want}")
                for key, text in G.curved_problems(mesh, 1.0):
                    rec.fail(f"{name}:{key}:order={want}:h={h}", f"{who}: {text}")
            if h is None:
                continue
            n = len(mesh._fe.cells)
            X = mesh._fe.x[mesh._fe.cells]
            diam = max(float(np.linalg.norm(X[:, a] - X[:, b], axis=1).max()) for a in range(X.shape[1]) for b in range(a))
            for h0, n0, d0 in prev:
                rec.step()
                if h0 < 1.9 * h or h > 2:  # where the geometry alone dictates the mesh, it may stay the same
                    continue
                rec.expect(n > n0, f"{name}:finer", f"{who} has {n} cells, size factor {h0} gives {n0}")
                rec.expect(diam < d0, f"{name}:finer", f"{who} has cells up to {diam:.3f}, size factor {h0} up to {d0:.3f}")
            prev.append((h, n, diam))
            rec.count("cells_checked", n)
        rec.sample({"generator": name, "params": params, "finest": prev[-1]})
