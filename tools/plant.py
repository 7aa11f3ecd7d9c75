#!/opt/venv/bin/python
"""Development tool: makes and confirms a planted bug.  usage: plant.py new SPEC.py | plant.py confirm ID [--check]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, FILE, EDITS [(old, new)], DEMO (python source; the stand-in is beside it).
Edits /repo's working tree for a moment and restores it; no check uses this.
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
R = pathlib.Path(os.environ.get("PLANT_REPO", "/repo"))  # a copy while vcheck is running, which watches /repo
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; the finite element library is replaced by the stand-in beside this file
D=$(cd "$(dirname "$0")" && pwd)
export PETSC_DIR=${PETSC_DIR:-/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
export MPLCONFIGDIR="$S"
export PYTHONPATH="$PWD/src:$D/standin"
cd "$S" || exit 3
/opt/venv/bin/python -P "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def restore():
    sh("git", "-C", str(R), "checkout", "--", ".")


def new(spec):
    s = runpy.run_path(spec)
    d = V / "seeded" / s["ID"]
    if sh("git", "-C", str(R), "status", "--porcelain").stdout:
        sys.exit("/repo is not clean")
    f = R / s["FILE"]
    t = f.read_text()
    for e in s["EDITS"]:
        old, repl = e[0], e[1]
        n = e[2] if len(e) > 2 else 0     # which occurrence
        parts = t.split(old)
        if len(parts) < 2 or len(parts) > 2 and len(e) < 3:
            sys.exit(f"{s['ID']}: {len(parts) - 1} occurrences of {old!r}")
        t = old.join(parts[:n + 1]) + repl + old.join(parts[n + 1:])
    f.write_text(t)
    diff = sh("git", "-C", str(R), "diff").stdout
    restore()
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(s["DEMO"])
    (d / "demo.sh").write_text(DEMO_SH)
    (d / "demo.sh").chmod(0o755)
    if s.get("STANDIN", True):
        shutil.copytree(V / "fakefem", d / "standin", ignore=shutil.ignore_patterns("__pycache__"))
    (d / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")


def confirm(i, check=True):
    d = V / "seeded" / i
    prop = json.loads((d / "meta.json").read_text())["property"]
    a = sh("bash", str(d / "demo.sh"), cwd=R)
    sh("git", "-C", str(R), "apply", str(d / "patch.diff"))
    try:
        real = R == pathlib.Path("/repo")
        b = sh("bash", "/opt/vp/build.sh" if real else "/dev/null")
        t = sh("bash", "/opt/vp/test.sh" if real else "/dev/null", f"/tmp/plant-{i}.json")
        dm = sh("bash", str(d / "demo.sh"), cwd=R)
        c = sh("bash", str(V / "check.sh"), prop, "quick", cwd=V, env=dict(os.environ, VERIF_REPO=str(R))) if check else None
    finally:
        restore()
    passed = [x for x in t.stdout.splitlines() if "passed" in x]
    print(f"{i:28s} {prop} demo {a.returncode}->{dm.returncode} build {b.returncode} tests {passed[-1:] } "
          f"check {c.returncode if c else '-'} {[x for x in c.stdout.splitlines() if 'VIOLATION' in x][:1] if c else ''}", flush=True)
    if a.returncode or not dm.returncode:
        print(a.stdout[-600:], a.stderr[-1500:], "\n--- patched\n", dm.stdout[-800:], dm.stderr[-1200:])


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for spec in sys.argv[2:]:
            new(spec)
            confirm(runpy.run_path(spec)["ID"])
    else:
        for i in sys.argv[2:]:
            if not i.startswith("-"):
                confirm(i, "--nocheck" not in sys.argv)
