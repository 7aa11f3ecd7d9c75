"""C10: every distribution of the rows over a few processes, and every sub-communicator."""
import json
import os
import subprocess
import tempfile

import launch
import paths

LEVEL = "model_checking"
RULE = ("every number of processes up to the bound x every distribution of the rows over them (empty parts included) x every "
        "sub-communicator (contiguous, strided, reversed rank order) x solver settings, run under mpirun; a state is (processes, "
        "sub-communicator, distribution, setting), a transition one parallel solve compared with the sequential one")
ASSUMPTIONS = ["Open MPI, at most 4 processes, systems with at most 6 rows", "message timing inside PETSc is not controlled"]
WORKERS = 2
HERE = os.path.dirname(os.path.abspath(__file__))
MPI_PROGRAM = os.path.join(os.path.dirname(HERE), "lib", "mpi_gmres.py")


def cases(tier, seed):
    top = 3 if tier == "quick" else 4
    return [{"p": p, "n": n, "tier": tier} for p in range(1, top + 1) for n in ((3, 5) if tier == "quick" else (2, 4, 6))]


def run_case(case, rec):
    with tempfile.TemporaryDirectory(prefix="c10-") as out:
        run_in(case, rec, out)


def run_in(case, rec, out):
    limit = 200
    try:
        p = launch.run(case["p"], [MPI_PROGRAM, str(case["n"])], limit, started=lambda: bool(os.listdir(out)), always=True, VERIF_SRC=str(paths.SRC), VERIF_OUT=out)
    except subprocess.TimeoutExpired:
        rec.fail("hang", f"parallel solves with {case['p']} processes did not finish within {limit} s")
        return
    lines = []
    for f in sorted(os.listdir(out)):
        with open(os.path.join(out, f)) as h:
            lines += [json.loads(x) for x in h if x.endswith("\n")]
    done = False
    for r in lines:
        if r.get("done"):
            done = True
            continue
        rec.state(case["p"], case["n"], r["group"], r["dist"], r["setting"])
        rec.step()
        rec.trace()
        if r["bad"]:
            rec.fail(r["bad"][0], f"{r['bad'][1]}; {case['p']} processes, group {r['group']}, rows {r['dist']}, {r['setting']}")
        elif len(rec.samples) < 2:
            rec.sample(r)
    if not done:
        err = (p.stderr or "")[-1500:]
        if any("Traceback" in x for x in (p.stderr, p.stdout)) or lines:
            rec.fail("aborted", f"parallel run with {case['p']} processes aborted: {err[-600:]}")
        else:
            raise RuntimeError(f"mpirun failed: {err}")
