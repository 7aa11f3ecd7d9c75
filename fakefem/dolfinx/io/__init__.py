"""Stand-in for dolfinx.io: XDMF through meshio (reading) and JSON (writing)."""
from __future__ import annotations

import json
import os

import numpy as np

from dolfinx import _env
from dolfinx.io import gmshio  # noqa: F401

_MESHIO = {"triangle": "triangle", "interval": "line", "tetrahedron": "tetra"}


class XDMFFile:
    def __init__(self, comm, filename, file_mode="r", **_kw):
        _env.event("xdmf_open", path=str(filename), mode=file_mode, comm=comm)
        self.comm, self.filename, self.mode = comm, str(filename), file_mode
        if file_mode == "r" and not os.path.exists(self.filename):
            raise RuntimeError(f"cannot open {filename}")
        self._out = {"mesh": None, "functions": []}
        self._open = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self._open:
            return
        self._open = False
        if self.mode == "w" and self.comm.rank == 0:
            with open(self.filename, "w") as f:
                json.dump(self._out, f)
        _env.event("xdmf_close", path=self.filename, mode=self.mode, comm=self.comm)

    def _need(self, mode):
        if not self._open or self.mode != mode:
            raise RuntimeError("XDMF file not open in the right mode")

    def read_mesh(self, ghost_mode=None, name="mesh", **_kw):
        self._need("r")
        _env.event("xdmf_read_mesh", path=self.filename, comm=self.comm)
        if name != "Grid":
            raise RuntimeError(f"<Grid> with name '{name}' not found")
        import meshio

        from dolfinx.mesh import Mesh
        m = meshio.read(self.filename)
        if self.comm.size > 1:
            self.comm.barrier()  # reading is collective
        if len(m.cells) != 1:
            raise RuntimeError("mixed topology")
        blk = m.cells[0]
        cell = {v: k for k, v in _MESHIO.items()}[blk.type]
        used = np.unique(blk.data)
        num = {int(v): i for i, v in enumerate(used)}
        mesh = Mesh(self.comm, m.points[used], [[num[int(v)] for v in c] for c in blk.data], cell)
        mesh.ghost_mode = ghost_mode
        mesh.tags = m.cell_data
        return mesh

    def read_meshtags(self, mesh, name="mesh", **_kw):
        self._need("r")
        _env.event("xdmf_read_meshtags", path=self.filename, comm=self.comm)
        if name != "Grid":
            raise RuntimeError(f"<Grid> with name '{name}' not found")
        import meshio
        m = meshio.read(self.filename)
        if self.comm.size > 1:
            self.comm.barrier()
        vals = next(iter(m.cell_data.values()))[0]
        blk = m.cells[0]
        if blk.type == "line" and not mesh.topology.connectivities:
            raise RuntimeError("Missing connectivity for facet tags")
        if blk.type == "line":
            # every tagged facet must be a facet of the mesh
            pts = {tuple(np.round(p[: mesh.geometry.dim], 9)): i for i, p in enumerate(mesh._fe.x)}
            for e in blk.data:
                ids = tuple(sorted(pts[tuple(np.round(m.points[v][: mesh.geometry.dim], 9))] for v in e))
                if ids not in mesh.edges:
                    raise RuntimeError("tagged facet is not in the mesh")
        if not hasattr(mesh, "read_tags"):
            mesh.read_tags = []
        mesh.read_tags.append((blk.type, m.points[:, :].copy(), blk.data.copy(), np.asarray(vals).copy()))

        class Tags:
            values = np.asarray(vals)
            dim = 1 if blk.type == "line" else mesh.topology.dim
        return Tags()

    def write_mesh(self, mesh, *_a):
        self._need("w")
        _env.event("xdmf_write_mesh", path=self.filename, comm=self.comm)
        self._out["mesh"] = {"x": mesh.geometry.x.tolist(), "cells": mesh._fe.cells.tolist()}

    def write_function(self, u, t=0.0, *_a):
        self._need("w")
        if self._out["mesh"] is None:
            raise RuntimeError("write the mesh first")
        _env.event("xdmf_write_function", path=self.filename, comm=self.comm)
        V = u.function_space
        self._out["functions"].append({"name": u.name, "t": t, "values": u.x.array.tolist(),
                                       "points": V.tabulate_dof_coordinates().tolist()})

    def write_meshtags(self, *_a, **_k):
        self._need("w")


class VTKFile:
    def __init__(self, *_a, **_k):
        raise NotImplementedError


class VTXWriter(VTKFile):
    pass
