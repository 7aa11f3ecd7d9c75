"""C28: parallel mesh generation, on every schedule."""
import ranksim as R

LEVEL = "model_checking"
RULE = ("every generator that exchanges the mesh through files (and every ordered pair of them in succession) x 2 and 3 (thorough: 4) processes; "
        "all interleavings of the real code at file accesses (begin and end of every read and write) and collective operations are explored "
        "under a controlled scheduler; a state is (position and history of every process, file contents, open accesses)")
ASSUMPTIONS = ["gmsh, meshio, mpi4py and DOLFINx are stubs: reading an XDMF mesh or its tags is a file read followed by a synchronising "
               "collective, opening a file is a read without synchronisation", "shared file system with atomic visibility of single writes",
               "entering and leaving a collective is not interleaved further (it commutes with every other operation)"]
TIMEOUT = 500
CALLS = {
    "convex": ("create_initial_mesh_convex", (2.0,), {}), "regenerated": ("get_mesh_convex", (2,), {"init_h_scale": 2.0}),
    "hierarchy": ("get_mesh_hierarchy", (1,), {}), "nonconvex": ("get_mesh_hierarchy_nonconvex", (1,), {}),
    "disc": ("get_mesh_hierarchy_fitted_disc", (0, 0.5), {}), "around": ("get_mesh_data_all_around", (1,), {}),
}


def cases(tier, seed):
    names = list(CALLS)
    out = [{"calls": [n], "size": s} for s in (1, 2, 3) for n in names]
    out += [{"calls": [a, b], "size": 2} for a in names for b in names]
    if tier == "thorough":
        out += [{"calls": [a, b], "size": 3} for a in names for b in names]
        out += [{"calls": [a, b, c], "size": 2} for a in names for b in names for c in names]
        out += [{"calls": [n], "size": 4} for n in names if n != "regenerated"]
    else:
        out += [{"calls": [a, "around" if a != "around" else "convex"], "size": 3} for a in names]
    return out


_alone = {}


def alone(calls):
    key = tuple(calls)
    if key not in _alone:
        _alone[key] = R.explore(1, [CALLS[c] for c in calls])
    return _alone[key]


def run_case(case, rec):
    calls = [CALLS[c] for c in case["calls"]]
    who = f"{[c[0] for c in calls]} on {case['size']} processes"
    one = alone(case["calls"])
    s = one if case["size"] == 1 else R.explore(case["size"], calls)
    if s["violation"]:
        key, text, schedule = s["violation"]
        rec.fail(key, f"{who}, schedule {schedule}: {text}", schedule=schedule)
    elif case["size"] > 1 and one["violation"] is None:
        single = eval(next(iter(one["results"])))[0]  # our own repr
        for r in s["results"]:
            rec.expect(all(x == single for x in eval(r)), "mesh", f"{who}: the mesh differs from the one a single process generates")
    for h in s["seen"]:
        rec.state(case["calls"], case["size"], h)
    rec.step(s["transitions"])
    rec.trace(s["schedules"])
    rec.sample({"calls": case["calls"], "processes": case["size"], "states": s["states"], "schedules": s["schedules"]})
