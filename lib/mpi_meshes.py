"""Run under mpirun by check C35: every process calls the real generators with the real gmsh; reports a digest of each mesh."""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gmsh
import meshing as G
from mpi4py import MPI

world = MPI.COMM_WORLD


def describe(m):
    return {"digest": hashlib.blake2b(repr(G.signature(m)).encode(), digest_size=8).hexdigest(), "cells": len(m._fe.cells)}


def main():
    import contextlib
    import io

    import dxss.meshes as M
    calls = json.loads(sys.argv[1])
    out = []
    for name, kw in calls:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = getattr(M, name)(**kw)
            out.append({"meshes": [describe(m) for m in (r if isinstance(r, list) else [r])], "session": bool(gmsh.isInitialized())})
        except Exception as e:  # noqa: BLE001
            out.append({"error": f"{type(e).__name__}: {str(e)[:200]}"})
            report(out)
            world.Abort(3)
    report(out)


def report(out):
    with open(os.path.join(os.environ["VERIF_OUT"], f"{world.rank}.json"), "w") as f:
        json.dump(out, f)


main()
