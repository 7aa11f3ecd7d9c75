"""C38: subdomain and boundary markers in the mesh files the generators write."""
import itertools
import os

import meshing as G
import meshio
import numpy as np
from runner import guarded
from scipy.spatial import cKDTree

LEVEL = "model_checking"
RULE = ("every generator that writes a mesh file x every parameter of its menu x size factors x refinement counts x an earlier generator call in the same folder; a "
        "state is one written set of files, a transition one marked cell or boundary facet checked against the geometry")
ASSUMPTIONS = ["DOLFINx (reading the mesh files, refining meshes) is replaced by a stand-in (fakefem/); gmsh and meshio are real",
               "parameters for which the documented parts are not empty"]
TIMEOUT = 300
SIZES = {"quick": (5.0, 3.0, 2.0, 1.0, 0.5), "thorough": (8.0, 5.0, 4.0, 3.0, 2.5, 2.0, 1.5, 1.25, 1.0, 0.75, 0.5, 0.35, 0.25)}
CONVEX = {1: lambda p: ~inside(p, (0.1, 0.25), (0.9, 1.0)), 2: lambda p: inside(p, (0.1, 0.25), (0.9, 0.95)), 3: lambda p: inside(p, (0.1, 0.95), (0.9, 1.0))}
NONCONVEX = {1: lambda p: inside(p, (0.25, 0.05), (0.75, 0.5)), 3: lambda p: ~inside(p, (0.125, 0.05), (0.875, 0.95)),
             2: lambda p: inside(p, (0.125, 0.05), (0.875, 0.95)) & ~inside(p, (0.25, 0.05), (0.75, 0.5))}
NAMED = {"create_initial_mesh_convex": CONVEX, "get_mesh_convex": CONVEX, "get_mesh_hierarchy": CONVEX, "get_mesh_hierarchy_nonconvex": NONCONVEX}
# files read back by the generators themselves / only the file of the CAD kernel
EXCHANGE = ["create_initial_mesh_convex", "get_mesh_convex", "get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_hierarchy_fitted_disc", "get_mesh_data_all_around"]
CAD = ["get_mesh_inclusion", "get_mesh_inclusion_square", "get_mesh_bottom_data"]


def inside(p, lo, hi):
    return ((p > np.array(lo)) & (p < np.array(hi))).all(axis=-1)


def cases(tier, seed):
    out = []
    for name in EXCHANGE + CAD:
        for p in G.GENERATORS[name][3]:
            out.append({"name": name, "params": p, "sizes": list(SIZES[tier]), "before": None})
            for b in (EXCHANGE + CAD if tier != "quick" else ["get_mesh_hierarchy_nonconvex", "get_mesh_data_all_around", "get_mesh_inclusion_square"]):
                if b != name:
                    out.append({"name": name, "params": p, "sizes": [3.0], "before": b})
    return out


def marked(path, kind):
    m = meshio.read(path)
    if kind not in m.cells_dict:
        return np.zeros((0, 2)), np.zeros((0, 3 if kind == "triangle" else 2), int), np.zeros(0, int)
    names = [n for n in ("name_to_read", "gmsh:physical") if n in m.cell_data]
    if not names:
        raise RuntimeError(f"{path} carries no markers")
    return m.points[:, :2], m.get_cells_type(kind), np.array(m.get_cell_data(names[0], kind), dtype=int)


def same_cells(x, cells, fe):
    """Are the cells, given by file, those of the mesh, up to numbering?"""
    dist, near = cKDTree(fe.x).query(x[np.unique(cells)])
    to = np.full(len(x), -1)
    to[np.unique(cells)] = near
    return dist.max() < 1e-8 and sorted(map(sorted, to[cells].tolist())) == sorted(map(sorted, np.asarray(fe.cells).tolist()))


def check_cells(rec, who, key, name, parts, x, cells, marks, circle):
    mid = x[cells].mean(axis=1)
    rec.step(len(cells))
    if name in NAMED:
        for mark, region in NAMED[name].items():
            bad = (marks == mark) != region(mid)
            rec.expect(not bad.any(), f"{key}:marker {mark}", f"{who}: {bad.sum()} cells wrongly with or without the marker {mark}, e.g. at {mid[bad][:1].round(3).tolist()} "
                       f"(marker {marks[bad][:1].tolist()})")
        return
    # elsewhere the markers number the subdomains: cells of different parts never share one
    part = np.stack([inside(mid, *b) for b in parts] + ([(np.linalg.norm(x[cells], axis=2) < circle + 1e-9).all(axis=1)] if circle else []), axis=1)
    for m in np.unique(marks):
        own = np.unique(part[marks == m], axis=0)
        rec.expect(len(own) == 1, f"{key}:subdomains", f"{who}: the marker {m} covers cells of {len(own)} subdomains, e.g. at {mid[marks == m][:3].round(3).tolist()}")


def check_boundary(rec, who, key, domain, x, lines, marks):
    rec.step(len(lines))
    lo, hi = np.array(domain[0]), np.array(domain[1])
    sel = x[lines[marks == 1]]
    on = ((np.abs(sel - lo) < 1e-9).all(axis=1) | (np.abs(sel - hi) < 1e-9).all(axis=1)).any(axis=1)
    rec.expect(on.all(), f"{key}:boundary", f"{who}: the boundary marker is on {(~on).sum()} facets that are not on the boundary, e.g. {sel[~on][:1].round(3).tolist()}")
    length = np.linalg.norm(sel[:, 1] - sel[:, 0], axis=1).sum()
    rec.expect(abs(length - 2 * (hi - lo).sum()) < 1e-9, f"{key}:boundary", f"{who}: facets with the boundary marker measure {length:.9f} instead of {2 * (hi - lo).sum():.9f}")


def run_case(case, rec):
    name, params = case["name"], case["params"]
    _, domain, boxes, _, levels = G.GENERATORS[name]
    parts = boxes(**{k: v for k, v in params.items() if k != "order"})
    for h, n_ref in itertools.product(case["sizes"], (None,) if levels is None else ((1, 2) if levels == "regenerate" else (0, 1))):
        with G.Scratch():
            who = f"{name}({params}, size factor {h}, refinements {n_ref})" + (f" after {case['before']}" if case["before"] else "")
            if case["before"]:
                b = case["before"]
                ok, _ = guarded(rec, f"raises:{b}", G.generate, b, 4.0, None, **G.GENERATORS[b][3][0])
                if not ok:
                    return
            ok, r = guarded(rec, f"raises:{name}", G.generate, name, h, n_ref, **params)
            if not ok:
                return
            rec.state(name, params, h, n_ref, case["before"])
            rec.trace()
            first = G.as_list(r)[-1 if levels == "regenerate" else 0]
            files = [("mesh.msh", "mesh.msh")] + ([("mesh.xdmf", "mt.xdmf")] if name in EXCHANGE else [])
            for cell_file, line_file in files:
                if not (os.path.exists(cell_file) and os.path.exists(line_file)):
                    rec.expect(cell_file == "mesh.msh", f"{name}:file", f"{who}: {cell_file} or {line_file} was not written")
                    continue
                x, cells, marks = marked(cell_file, "triangle")
                rec.expect(same_cells(x, cells, first._fe), f"{name}:{cell_file}:cells", f"{who}: the {len(cells)} cells in {cell_file} are not those of the mesh ({len(first._fe.cells)})")
                check_cells(rec, f"{who}, {cell_file}", name, name, parts, x, cells, marks, 1.0 if name == "get_mesh_inclusion" else None)
                if name == "get_mesh_bottom_data":      # marks no boundary
                    continue
                check_boundary(rec, f"{who}, {line_file}", name, domain, *marked(line_file, "line"))
            # what the generator itself reads
            for typ, x, data, vals in getattr(first, "read_tags", []):
                x, data, vals = np.array(x)[:, :2], np.array(data), np.array(vals)
                if typ.startswith("tri"):
                    check_cells(rec, f"{who}, tags read", name, name, parts, x, data, vals, None)
                else:
                    check_boundary(rec, f"{who}, tags read", name, domain, x, data, vals)
    rec.sample({"generator": name, "params": params})
