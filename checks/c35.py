"""C35: the mesh generators give the mesh of a single process on any number of processes."""
import json
import os
import subprocess

import launch
import ranksim as R

LEVEL = "model_checking"
RULE = ("(a) every generator x geometry parameters x 1, 2, 3 (thorough: 4) real processes with the real CAD kernel, also in ordered pairs of generators: every process "
        "must end with the mesh that one process gets; (b) the generators that hand their mesh over in memory: all schedules of 2 and 3 (thorough: 4) simulated "
        "processes at collective operations and file accesses; a state is (calls, processes[, schedule state]), a transition one generated mesh or one scheduling step")
ASSUMPTIONS = ["Open MPI, at most 4 processes; (a) does not control message timing", "DOLFINx is replaced by a stand-in in which every process keeps the whole mesh",
               "(b) gmsh, meshio, mpi4py and DOLFINx are stubs"]
TIMEOUT = 400
WORKERS = 3
HERE = os.path.dirname(os.path.abspath(__file__))
PROGRAM = os.path.join(os.path.dirname(HERE), "lib", "mpi_meshes.py")

SINGLE = [
    ("create_initial_mesh_convex", {"init_h_scale": 4.0}), ("get_mesh_convex", {"n_ref": 2, "init_h_scale": 6.0}), ("get_mesh_hierarchy", {"n_ref": 1, "init_h_scale": 6.0}),
    ("get_mesh_hierarchy_nonconvex", {"n_ref": 1, "init_h_scale": 6.0}), ("get_mesh_hierarchy_fitted_disc", {"n_ref": 1, "eta": 0.6, "h_init": 6.0}),
    ("get_mesh_inclusion", {"h_init": 2.0, "order": 1}), ("get_mesh_inclusion", {"h_init": 2.0, "order": 2}), ("get_mesh_inclusion", {"h_init": 1.5, "order": 3}),
    ("get_mesh_inclusion_square", {"h_init": 3.0}), ("get_mesh_inclusion_square", {"h_init": 3.0, "eta": 1.5}), ("get_mesh_inclusion_square", {"h_init": 3.0, "eta": 0.5}),
    ("get_mesh_bottom_data", {"h_init": 4.0}), ("get_mesh_bottom_data", {"h_init": 4.0, "eta": 0.3}),
    ("get_mesh_data_all_around", {"n_ref": 1, "init_h_scale": 6.0}), ("get_3d_mesh_data_all_around", {"n_ref": 1, "init_h_scale": 8.0}),
]
PAIRED = (1, 2, 5, 8, 11, 13, 14)
SIM = {"inclusion": ("get_mesh_inclusion", (2.0, 1), {}), "inclusion2": ("get_mesh_inclusion", (2.0,), {}), "inclusion3": ("get_mesh_inclusion", (), {"order": 3}),
       "square": ("get_mesh_inclusion_square", (2.0,), {}), "square-plain": ("get_mesh_inclusion_square", (), {"eta": 1.5}), "bottom": ("get_mesh_bottom_data", (2.0,), {}),
       "around": ("get_mesh_data_all_around", (1,), {})}


def cases(tier, seed):
    top = 3 if tier == "quick" else 4
    out = [{"calls": [i], "p": p} for i in range(len(SINGLE)) for p in range(2, top + 1)]
    for i in PAIRED:
        for j in PAIRED:
            if tier != "quick" or (PAIRED.index(i) + PAIRED.index(j)) % 3 == 0:
                out.append({"calls": [i, j], "p": 2})
    out += [{"sim": [n], "p": p} for n in SIM if n != "around" for p in range(1, top + 1)]
    out += [{"sim": [a, b], "p": 2} for a in SIM for b in SIM if "around" != a or "around" != b]
    if tier != "quick":
        out += [{"sim": [a, b], "p": 3} for a in SIM for b in SIM if "around" != a or "around" != b]
    return out


def execute(calls, p, d):
    out = os.path.join(d, f"out-{p}")
    work = os.path.join(d, f"work-{p}")
    os.mkdir(out)
    os.mkdir(work)
    try:
        r = launch.run(p, [PROGRAM, json.dumps(calls)], 150, cwd=work, started=lambda: bool(os.listdir(out)), VERIF_OUT=out)
    except subprocess.TimeoutExpired:
        return None, "did not finish within 150 s"
    got = {}
    for f in os.listdir(out):
        with open(os.path.join(out, f)) as h:
            got[int(f.split(".")[0])] = json.load(h)
    return got, (r.stderr or "")[-800:]


def run_case(case, rec):
    if "sim" in case:
        return simulated(case, rec)
    import tempfile
    calls = [SINGLE[i] for i in case["calls"]]
    with tempfile.TemporaryDirectory(prefix="c35-") as d:
        one, err1 = execute(calls, 1, d)
        many, err = execute(calls, case["p"], d)
    who = f"{[c[0] for c in calls]} {[c[1] for c in calls]} on {case['p']} processes"
    if one is None or 0 not in one or any("error" in r for r in one[0]):
        rec.fail("serial", f"{who}: a single process gets {one} {err1[-300:]}")
        return None
    rec.state(case["calls"], case["p"])
    rec.step(case["p"] * len(calls))
    if many is None:
        rec.fail("hang", f"{who}: {err}")
        return None
    errors = {r: e["error"] for r, res in sorted(many.items()) for e in res if "error" in e}
    if errors:
        rec.fail("raises", f"{who}: {errors}")
        return None
    if len(many) != case["p"]:
        if not any(x in err for x in ("Traceback", "Error")):
            raise RuntimeError(f"mpirun failed: {err}")
        rec.fail("aborted", f"{who}: only {sorted(many)} finished: {err[-500:]}")
        return None
    for r, res in sorted(many.items()):
        for c, (a, b) in enumerate(zip(one[0], res)):
            rec.expect(a["meshes"] == b["meshes"], "mesh", f"{who}: call {c} gives process {r} the meshes {b['meshes']}, a single process gets {a['meshes']}")
            rec.expect(not b["session"], "session", f"{who}: process {r} leaves the CAD session open")
    rec.trace()
    rec.sample({"calls": calls, "processes": case["p"], "cells": [[m["cells"] for m in e["meshes"]] for e in one[0]]})
    return None


def simulated(case, rec):
    calls = [SIM[c] for c in case["sim"]]
    who = f"{[c[0] for c in calls]} on {case['p']} simulated processes"
    one = R.explore(1, calls)
    s = one if case["p"] == 1 else R.explore(case["p"], calls)
    if s["violation"]:
        key, text, schedule = s["violation"]
        rec.fail(f"sim:{key}", f"{who}, schedule {schedule}: {text}", schedule=schedule)
    elif case["p"] > 1 and one["violation"] is None:
        single = eval(next(iter(one["results"])))[0]  # our own repr
        for r in s["results"]:
            rec.expect(all(x == single for x in eval(r)), "sim:mesh", f"{who}: the mesh differs from the one a single process generates")
    for h in s["seen"]:
        rec.state(case["sim"], case["p"], h)
    rec.step(s["transitions"])
    rec.trace(s["schedules"])
