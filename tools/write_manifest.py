"""Writes MANIFEST.json from the check modules that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
BOUND = "exhaustive within the stated bounds only; DOLFINx itself is replaced by the stand-in in fakefem"
REAL = "exhaustive within the stated bounds only, on the real libraries"
T = {
    "C01": ("model_checking", "exhaustive enumeration of order pairs, entries and call histories against exact rational integrals", REAL),
    "C02": ("model_checking", "exhaustive enumeration of orders and basis functions, polynomial identity on enough points", REAL),
    "C03": ("model_checking", "exhaustive enumeration of rules, intervals, monomials and query histories", REAL),
    "C04": ("model_checking", "polynomial identity on an exhaustive grid", REAL),
    "C05": ("model_checking", "bounded exhaustive enumeration of systems and settings on the real solver", REAL),
    "C06": ("model_checking", "reference GMRES state machine, conformance of every trace on the real solver", REAL),
    "C07": ("model_checking", "bounded exhaustive enumeration of systems and pairs of solves", REAL),
    "C08": ("fault_enumeration", "fault injection at every operator and preconditioner application", REAL),
    "C09": ("model_checking", "exhaustive call sequences compared with fresh processes", REAL),
    "C10": ("model_checking", "exhaustive row distributions over real MPI processes", REAL),
    "C11": ("model_checking", "bounded exhaustive configurations, all entries against an independent reference assembly", BOUND),
    "C12": ("model_checking", "bounded exhaustive configurations, block by block comparison", BOUND),
    "C13": ("model_checking", "bounded exhaustive configurations x unit vectors x dirty states", BOUND),
    "C14": ("model_checking", "bounded exhaustive configurations x unit vectors x dirty states", BOUND),
    "C15": ("model_checking", "explicit-state search over all request orders, results against fresh objects", BOUND),
    "C16": ("model_checking", "exhaustive operation sequences with slab solver faults, results against fresh objects", BOUND),
    "C17": ("model_checking", "exhaustive cell subsets and sharing orders against reference data terms", BOUND),
    "C18": ("model_checking", "bounded exhaustive configurations and polynomial data against reference right-hand sides", BOUND),
    "C19": ("model_checking", "bounded exhaustive configurations and unit vectors against exact error norms", BOUND),
    "C20": ("model_checking", "bounded exhaustive configurations and unit vectors against sampled reference fields", BOUND),
    "C21": ("model_checking", "exhaustive coarse unit vectors over nested mesh pairs", BOUND),
    "C22": ("model_checking", "exhaustive right-hand sides and repeated applications against the composed operator", BOUND),
    "C23": ("model_checking", "bounded exhaustive configurations, iterative against direct solution", BOUND),
    "C24": ("model_checking", "exhaustive refinement sequences over orders and modes", BOUND),
    "C25": ("model_checking", "exhaustive generators x size factors, geometric oracle on every cell and facet (real gmsh)", BOUND),
    "C26": ("model_checking", "exhaustive generators x refinement counts x call conventions (real gmsh)", BOUND),
    "C27": ("model_checking", "exhaustive generator call sequences against fresh processes (real gmsh)", BOUND),
    "C28": ("model_checking", "controlled scheduler: all interleavings of simulated processes at file, CAD and collective operations",
            "exhaustive for 2 and 3 simulated processes; gmsh, meshio, MPI and XDMF are stand-ins in this check"),
    "C29": ("model_checking", "exhaustive drivers x backends x flags x package availability", BOUND + "; PyPardiso is replaced by a stand-in"),
    "C30": ("model_checking", "exhaustive point grids with floating-point neighbours of all boundaries", BOUND),
    "C31": ("model_checking", "exhaustive sparsity patterns, storage orders and export histories", REAL),
    "C32": ("model_checking", "exhaustive interleaved solve histories on pairs of solvers", "exhaustive within the stated bounds only; PyPardiso and DOLFINx are replaced by stand-ins"),
    "C33": ("model_checking", "exhaustive option/argument combinations and histories, differential against argument-only solves", REAL),
    "C35": ("model_checking", "exhaustive schedules of simulated processes (stateful search) and all generators and pairs on real MPI processes", BOUND + "; real processes: message timing not controlled"),
    "C34": ("model_checking", "all cell distributions over simulated processes executing the real measurement", BOUND + "; processes and collectives are simulated"),
    "C36": ("model_checking", "all interleavings of two life cycles up to a switch bound, each prefix a forked snapshot, against the object alone", BOUND),
    "C38": ("model_checking", "exhaustive generators x parameters x size factors x earlier calls, every cell and facet marker (real gmsh and meshio)", BOUND),
    "C39": ("model_checking", "exhaustive set-up sequences and subsets, each followed by all operations, completion, and all operations", BOUND),
    "C40": ("model_checking", "bounded exhaustive inputs: all requests and all subsets of the problem data, each refused or shown independent of what is missing", BOUND),
    "C37": ("model_checking", "bounded exhaustive configurations, all eigenvalues of every matrix", BOUND),
}
NOT_APPLICABLE = {}

checks, missing = [], []
for pid, (level, technique, note) in T.items():
    if (ROOT / "checks" / f"{pid.lower()}.py").exists():
        checks.append({"property": pid, "quick_cmd": f"bash check.sh {pid} quick", "thorough_cmd": f"bash check.sh {pid} thorough",
                       "technique": technique, "level": level, "level_note": note})
    else:
        missing.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash check.sh --selftest",
     "hooks": {"guard": "DXSS_VERIF", "enable": "no hooks are needed; nothing in /repo reads the variable", "source_commits": []},
     "checks": checks, "not_applicable": missing}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in missing])
