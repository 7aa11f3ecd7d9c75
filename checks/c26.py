"""C26: mesh hierarchies are nested uniform refinements with one level per request."""
import os
import pathlib
import sys
import tempfile

import forktree
import numpy as np
import meshing as G
from dolfinx import _env
from runner import guarded

LEVEL = "model_checking"
RULE = ("every hierarchy generator x refinement count x size factor x library version (call conventions enforced by the stand-in), each in its "
        "own process; a state is one level, a transition one refinement step, on which every fine cell is located in its parent")
ASSUMPTIONS = ["DOLFINx (mesh refinement included) is replaced by a stand-in (fakefem/) that splits marked edges and cells like the "
               "library; gmsh and meshio are real", "version 0.7 and later: only the generator that caters for it"]
TIMEOUT = 400
HIER = [n for n, g in G.GENERATORS.items() if g[4] == "refine"]
OLD, NEW = ("0.6.0", "0.6.0.post1", "0.6.1"), ("0.7.0", "0.7.3", "0.8.0", "0.10.0")


def cases(tier, seed):
    out = []
    sizes = (4.0, 2.0, 1.0) if tier == "quick" else (8.0, 5.0, 4.0, 2.5, 2.0, 1.25, 1.0, 0.6)
    for name in HIER:
        three = len(G.GENERATORS[name][1][0]) == 3
        for p in G.GENERATORS[name][3]:
            if tier == "quick" and p not in (G.GENERATORS[name][3][0], G.GENERATORS[name][3][-1]):
                continue
            for h in (sizes if not three else (8.0, 4.0) if tier == "quick" else (8.0, 5.0, 4.0, 3.0)):
                coarsest = h == sizes[0] and not three
                for n in range((5 if coarsest else 3 if not three or h > 5 else 2) if tier == "quick"
                               else (6 if coarsest else 5 if not three and h > 1.9 else 4 if not three or h > 5 else 3)):
                    versions = ("0.6.0",)
                    if name == "get_mesh_data_all_around" and not (tier == "quick" and h > 2):
                        versions = OLD + NEW
                    for v in versions:
                        out.append({"name": name, "params": p, "h": h, "n": n, "version": v})
    for h in (4.0, 1.0, 0.75):
        for n in range(5 if tier == "quick" else 6):
            if 2 ** n / h <= (16 if tier == "quick" else 32):
                out.append({"name": "get_mesh_convex", "params": {}, "h": h, "n": n, "version": "0.6.0"})
    return out


def in_version(case):
    """Runs in a process of its own: dxss.meshes has not been imported yet."""
    v = case["version"]
    with G.Scratch() as d:
        if v != "0.6.0":
            import dolfinx
            info = pathlib.Path(d) / "site" / f"fenics_dolfinx-{v}.dist-info"
            info.mkdir(parents=True)
            (info / "METADATA").write_text(f"Metadata-Version: 2.1\nName: fenics-dolfinx\nVersion: {v}\n")
            sys.path.insert(0, str(info.parent))
            _env.version = dolfinx.__version__ = v
        from importlib.metadata import version
        assert version("fenics-dolfinx") == v
        rec = Fails()
        body(case, rec)
        return rec.out


class Fails:
    def __init__(self):
        self.out = {"fail": [], "states": [], "steps": 0, "traces": 0, "sample": None}

    def fail(self, key, msg, **_):
        self.out["fail"].append((key, msg))

    def expect(self, ok, key, msg, **_):
        if not ok:
            self.fail(key, msg)
        return ok


def body(case, rec):
    name, p, h, n = case["name"], case["params"], case["h"], case["n"]
    _, dom, boxes, _, kind = G.GENERATORS[name]
    who = f"{name}(n_ref={n}, size factor {h}, {p}) with fenics-dolfinx {case['version']}"
    ok, r = guarded(rec, f"raises:{name}", G.generate, name, h, n, **p)
    if not ok:
        return
    levels = G.as_list(r)
    want = n if kind == "regenerate" else n + 1
    if not rec.expect(isinstance(r, (list, tuple)) and len(levels) == want, f"{name}:levels", f"{who} gives {len(levels)} levels instead of {want}"):
        return
    rec.expect(len({id(m) for m in levels}) == len(levels), f"{name}:levels", f"{who}: the same mesh object twice")
    for i, m in enumerate(levels):
        rec.out["states"].append((name, str(p), h, n, case["version"], i))
        rec.out["traces"] += 1
        for key, text in G.problems(m, dom, boxes(**p)):
            rec.fail(f"{name}:{key}", f"{who}, level {i}: {text}")
        if kind == "regenerate":
            ref = G.generate("create_initial_mesh_convex", h / 2 ** i)
            rec.expect(G.signature(ref)[0] == G.signature(m)[0], f"{name}:level",
                       f"{who}: level {i} ({len(m._fe.cells)} cells) is not the mesh of size factor {h / 2 ** i} ({len(ref._fe.cells)} cells)")
        elif i == 0:
            ref = G.as_list(G.generate(name, h, 0, **p))[0]
            rec.expect(G.signature(ref)[0] == G.signature(m)[0], f"{name}:level", f"{who}: the coarsest level depends on the refinement count")
        else:
            rec.out["steps"] += 1
            refinement(rec, name, who, i, levels[i - 1], m)
    rec.out["sample"] = {"generator": name, "n_ref": n, "h": h, "version": case["version"], "cells": [len(m._fe.cells) for m in levels]}


def refinement(rec, name, who, i, coarse, fine):
    d = coarse._fe.gdim
    try:
        kids = G.children(coarse, fine)
    except ValueError as e:
        rec.fail(f"{name}:nested", f"{who}: level {i} is not nested in level {i - 1}: {e}")
        return
    number = {len(k) for k in kids}
    rec.expect(number == {2 ** d}, f"{name}:uniform", f"{who}: cells of level {i - 1} are divided into {sorted(number)} cells of level {i}")
    vc, vf = G.volumes(coarse._fe), G.volumes(fine._fe)
    share = np.array([vf[k].sum() if k else 0.0 for k in kids])
    rec.expect(np.allclose(share, vc, rtol=1e-9, atol=0), f"{name}:area", f"{who}: the cells of level {i} do not fill those of level {i - 1}")


def run_case(case, rec):
    try:
        out = forktree.branch(in_version, case)
    except forktree.Died as e:
        if "/src/dxss/" in str(e).replace("/verif/", ""):
            rec.fail(f"raises:{case['name']}", f"{case}: {e}")
            return
        raise
    for key, msg in out["fail"]:
        rec.fail(key, msg)
    for s in out["states"]:
        rec.state(*s)
    rec.step(out["steps"])
    rec.trace(out["traces"])
    if out["sample"]:
        rec.sample(out["sample"])
