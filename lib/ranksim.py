"""Controlled scheduler for simulated MPI processes running the real dxss.meshes: one thread per process, exactly one of
them runs at a time, and every file access and collective operation is a scheduling point. gmsh, meshio, mpi4py and dolfinx
are replaced by small stubs in which the outcome of every operation depends on the files alone. Explores ALL schedules:
depth-first over the choices, states (program position and history of every process, file contents) are visited once."""
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback
import types

import numpy as np
import paths

paths.use_repo()
_local = threading.local()
_REAL = {"exists": os.path.exists, "isfile": os.path.isfile, "replace": os.replace, "rename": os.rename, "remove": os.remove,
         "unlink": os.unlink, "sleep": time.sleep}


class Kill(BaseException):
    pass


class Violation(Exception):
    def __init__(self, key, text):
        super().__init__(text)
        self.key = key


def me():
    return getattr(_local, "proc", None)


def digest(*x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


class Proc:
    def __init__(self, world, rank):
        self.world, self.rank = world, rank
        self.go = threading.Semaphore(0)
        self.pending = None       # (kind, detail) of the next visible operation
        self.done, self.error, self.result = False, None, None
        self.history = ""
        self.trace = []
        self.cad = None           # log of the open CAD session, None when closed
        self.opened = 0
        self.coll = 0             # collectives entered so far

    def point(self, kind, detail=None):
        """Give control back; returns when the scheduler lets this process perform the operation."""
        self.pending = (kind, detail)
        self.world.back.release()
        self.go.acquire()
        if self.world.killed:
            raise Kill
        self.pending = None
        self.trace.append((kind, detail))
        self.note(kind, detail)

    def note(self, *x):
        self.history = digest(self.history, x)


class World:
    def __init__(self, size, program):
        self.size, self.program = size, program
        self.back = threading.Semaphore(0)
        self.killed = False
        self.procs = [Proc(self, r) for r in range(size)]
        self.readers, self.writers = {}, {}
        self.collectives = []     # n-th collective: {"kind", "arrived": set, "data": {rank: value}, "root"}
        self.violation = None
        self.order = []
        self.steps = 0

    # -- visible operations -------------------------------------------------------------------------------------
    def collective(self, p, kind, value=None, wait="all", root=0):
        n = p.coll
        p.coll += 1
        p.point("enter", kind)
        if n == len(self.collectives):
            self.collectives.append({"kind": kind, "arrived": set(), "data": {}})
        c = self.collectives[n]
        if c["kind"] != kind:
            raise Violation("collective mismatch", f"process {p.rank} enters {kind} where another one is in {c['kind']}")
        c["arrived"].add(p.rank)
        c["data"][p.rank] = value
        p.point("leave", (n, wait, root))
        p.note(repr(sorted(c["data"].items())) if wait == "all" else repr(c["data"].get(root)))
        return c["data"]

    def enabled(self, p):
        if p.done or p.pending is None:
            return False
        kind, d = p.pending
        if kind == "leave":
            n, wait, root = d
            arrived = self.collectives[n]["arrived"]
            if wait == "all":
                return len(arrived) == self.size
            if wait == "root":
                return root in arrived
            if wait == "gather":
                return p.rank != root or len(arrived) == self.size
        return True

    def begin_write(self, p, path):
        path = os.path.abspath(path)
        p.point("write", os.path.basename(path))
        if p.rank != 0 and self.size > 1:
            raise Violation("writer", f"process {p.rank} writes {os.path.basename(path)}")
        if self.readers.get(path):
            raise Violation("overwritten", f"process {p.rank} overwrites {os.path.basename(path)} while process "
                            f"{sorted(self.readers[path])} reads it")
        if self.writers.get(path):
            raise Violation("two writers", f"processes {p.rank} and {self.writers[path]} write {os.path.basename(path)}")
        self.writers[path] = {p.rank}
        with open(path, "w") as f:
            f.write("partial")
        return path

    def end_write(self, p, path, content):
        p.point("written", os.path.basename(path))
        with open(path, "w") as f:
            json.dump(content, f)
        self.writers.pop(path, None)

    def read(self, p, path):
        path = os.path.abspath(path)
        p.point("read", os.path.basename(path))
        if self.writers.get(path):
            raise Violation("incomplete", f"process {p.rank} reads {os.path.basename(path)} while process {sorted(self.writers[path])} writes it")
        if not _REAL["exists"](path):
            raise Violation("missing", f"process {p.rank} reads {os.path.basename(path)} before it is written")
        self.readers.setdefault(path, set()).add(p.rank)
        p.point("got", os.path.basename(path))
        with open(path) as f:
            content = json.load(f)
        self.readers[path].discard(p.rank)
        p.note(repr(content))
        return content

    # -- running ------------------------------------------------------------------------------------------------
    def state(self):
        files = []
        for f in sorted(os.listdir(".")):
            if _REAL["isfile"](f):
                with open(f) as h:
                    files.append((f, h.read()))
        return digest([(p.history, p.pending, p.done, p.cad is None) for p in self.procs], files,
                      [sorted((os.path.basename(k), sorted(v)) for k, v in d.items() if v) for d in (self.readers, self.writers)],
                      [(c["kind"], sorted(c["arrived"])) for c in self.collectives[-2:]])

    def body(self, p):
        _local.proc = p
        try:
            p.point("start")
            p.result = self.program(p)
        except Kill:
            pass
        except Violation as e:
            p.error = e
        except BaseException as e:  # noqa: BLE001
            p.error = Violation("raises", f"process {p.rank}: {type(e).__name__}: {e}")
            p.error.tb = traceback.format_exc()[-1500:]
        p.done = True
        self.back.release()

    def run(self, prefix, visit):
        """Follow the choices of prefix, then the first enabled process. visit(state, enabled, n) after the prefix: False
        ends the run. Returns 'end', 'cut' or raises Violation."""
        ts = [threading.Thread(target=self.body, args=(p,), daemon=True) for p in self.procs]
        for t in ts:
            t.start()
            self.back.acquire()
        n = 0
        try:
            while True:
                bad = next((p.error for p in self.procs if p.error), None)
                if bad:
                    raise bad
                en = [p.rank for p in self.procs if self.enabled(p)]
                if not en:
                    if all(p.done for p in self.procs):
                        return "end"
                    stuck = {p.rank: p.pending for p in self.procs if not p.done}
                    raise Violation("deadlock", f"processes wait for ever: {stuck}; finished: {[p.rank for p in self.procs if p.done]}")
                # entering and leaving a collective commutes with every operation of the other processes and stays
                # enabled: performed at once (a persistent set of one)
                eager = next((r for r in en if self.procs[r].pending[0] in ("start", "enter", "leave")), None)
                if eager is not None:
                    r = eager
                    self.procs[r].go.release()
                    self.back.acquire()
                    self.steps += 1
                    continue
                if n < len(prefix):
                    r = prefix[n]
                else:
                    if not visit(self.state(), en, tuple(self.order)):
                        return "cut"
                    r = en[0]
                n += 1
                if n > 5000:
                    raise Violation("livelock", "no end after 5000 operations")
                self.order.append(r)
                self.procs[r].go.release()
                self.back.acquire()
        finally:
            self.killed = True
            for p in self.procs:
                p.go.release()
            for t in ts:
                t.join()


# -- stubs --------------------------------------------------------------------------------------------------------
class Comm:
    """MPI.COMM_WORLD"""

    @property
    def rank(self):
        return me().rank if me() else 0

    @property
    def size(self):
        return me().world.size if me() else 1

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Dup(self):
        return self

    def barrier(self):
        me().world.collective(me(), "barrier")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return me().world.collective(me(), f"bcast from {root}", obj if me().rank == root else None, "root", root)[root]

    def allreduce(self, v, op=None):
        d = me().world.collective(me(), "allreduce", v)
        return sum(d.values()) if op in (None, "SUM") else max(d.values())

    def allgather(self, v):
        d = me().world.collective(me(), "allgather", v)
        return [d[i] for i in sorted(d)]

    def gather(self, v, root=0):
        d = me().world.collective(me(), f"gather to {root}", v, "gather", root)
        return [d[i] for i in sorted(d)] if me().rank == root else None

    def scatter(self, v, root=0):
        return me().world.collective(me(), f"scatter from {root}", v if me().rank == root else None, "root", root)[root][me().rank]


class CommSelf:
    rank, size = 0, 1

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def barrier(self):
        pass

    Barrier = barrier


QUERIES = tuple("model.mesh." + x for x in ("getNodes", "getElements", "getElementProperties", "getElementType", "setOrder"))
NODES = {1: 3, 2: 6, 3: 10}  # of a triangle, by order
IDS = {2: 1, 9: 2, 21: 3}
DRIVES = ("model.occ", "model.geo", "model.mesh", "model.addPhysical", "model.add_physical", "model.setPhysical", "model.set_physical", "write", "merge", "open")


class Cad:
    """gmsh: records the calls; the mesh is determined by them."""

    def __init__(self, path=""):
        self._path = path

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Cad(f"{self._path}.{name}" if self._path else name)

    def __call__(self, *args, **kw):
        p, path = me(), self._path
        last = path.rsplit(".", 1)[-1]
        if path == "initialize":
            if p.cad is not None:
                raise Violation("session", f"process {p.rank} opens a second CAD session")
            p.cad = []
            p.note("init")
            return None
        if path in ("isInitialized", "is_initialized"):
            return int(p.cad is not None)
        if p.cad is None:
            raise Violation("session", f"process {p.rank} uses the CAD kernel ({path}) without a session")
        if path == "finalize":
            p.cad = None
            p.note("fini")
            return None
        if path.startswith(QUERIES):
            return self._query(p, last, args, kw)
        if p.world.size > 1 and p.rank != 0 and path.startswith(DRIVES):
            raise Violation("cad", f"process {p.rank} drives the CAD kernel ({path})")
        p.cad.append((path, repr(args), repr(sorted(kw.items()))))
        if path == "write":
            f = p.world.begin_write(p, args[0])
            p.world.end_write(p, f, {"token": int(digest(p.cad), 16) % 10**9})
            return None
        if last in ("getEntities", "get_entities"):
            d = kw.get("dim", args[0] if args else 2)
            return [(d, 1), (d, 2), (d, 3)]
        if last in ("getCenterOfMass", "get_center_of_mass"):
            return (0.5, 0.6, 0.0)
        if last in ("cut", "fragment", "fuse", "intersect"):
            return [(2, 1)], [[(2, 1)]]
        if last.startswith("add"):
            return len(p.cad)
        return None

    @staticmethod
    def _query(p, last, args, kw):
        """Queries of the mesh: empty on a process that has not generated one, as in gmsh."""
        made = any(c[0] == "model.mesh.generate" for c in p.cad)
        if last == "setOrder":
            p.cad.append(("model.mesh.setOrder", repr(args), ""))
            return None
        order = next((int(c[1].strip("(),")) for c in reversed(p.cad) if c[0] == "model.mesh.setOrder"), 1)
        n = NODES[order]
        if last == "getElementType":
            return {v: k for k, v in IDS.items()}[args[1] if len(args) > 1 else kw["order"]]
        if last == "getElementProperties":
            o = IDS[int(args[0])]
            return f"Triangle {o}", 2, o, NODES[o], np.zeros(2 * NODES[o]), 3
        if last == "getNodes":
            if not made:
                return np.zeros(0, dtype=np.uint64), np.zeros(0), np.zeros(0)
            token = int(digest([c for c in p.cad if c[0].startswith(("model.occ", "model.mesh", "option"))]), 16) % 10**6
            return np.arange(n, 0, -1).astype(np.uint64), np.arange(3.0 * n) + token, np.zeros(0)
        if not made:
            return np.zeros(0, dtype=np.int32), [], []
        return np.array([{v: k for k, v in IDS.items()}[order]], dtype=np.int32), [np.array([1], dtype=np.uint64)], [np.arange(1, n + 1).astype(np.uint64)]


def sim_create_mesh(comm, cells, x, domain, *_a, **_kw):
    cells, x = np.asarray(cells), np.asarray(x)
    if cells.ndim != 2 or x.ndim != 2 or x.shape[1] != 2 or cells.shape[1] not in NODES.values():
        raise Violation("arguments", f"process {me().rank} passes cells of shape {cells.shape} and points of shape {x.shape}")
    if isinstance(comm, Comm):
        d = me().world.collective(me(), "create_mesh", (cells.astype(int).tolist(), x.tolist()))
    else:
        d = {0: (cells.astype(int).tolist(), x.tolist())}
    cs = [c for r in sorted(d) for c in d[r][0]]
    xs = [q for r in sorted(d) for q in d[r][1]]
    if len({len(c) for c in cs}) > 1 or not cs:
        raise Violation("arguments", f"cells of all processes: {cs}")
    if max(max(c) for c in cs) >= len(xs):
        raise Violation("arguments", "a cell refers to a point that no process has")
    return SimMesh(digest(cs, xs, domain))


class MioMesh:
    def __init__(self, points, cells, cell_data=None, **_kw):
        self.points, self.cells, self.cell_data = np.asarray(points), cells, cell_data or {}

    def get_cells_type(self, t):
        return np.array([[0, 1, 2]]) if t == "triangle" else np.array([[0, 1]])

    def get_cell_data(self, _name, t):
        return np.array([int(self.points.flat[0]) % 97 + (1 if t == "line" else 0)])

    @property
    def cells_dict(self):
        return {t: self.get_cells_type(t) for t in ("triangle", "line")}

    @property
    def cell_data_dict(self):
        return {"gmsh:physical": {t: self.get_cell_data("", t) for t in ("triangle", "line")}}

    def write(self, filename, **_kw):
        mio_write(filename, self)


def mio_read(filename, **_kw):
    c = me().world.read(me(), str(filename))
    if "token" not in c:
        raise Violation("exchange", f"{os.path.basename(str(filename))} is not a gmsh file")
    return MioMesh(np.full((3, 3), float(c["token"])), None)


def mio_write(filename, mesh, **_kw):
    p = me()
    cells = mesh.cells
    kinds = sorted(cells) if isinstance(cells, dict) else sorted(c[0] if isinstance(c, (tuple, list)) else c.type for c in cells)
    f = p.world.begin_write(p, str(filename))
    p.world.end_write(p, f, {"xdmf": [float(v) for v in mesh.points.ravel()], "dim": int(mesh.points.shape[1]), "kind": kinds,
                             "data": repr({k: [np.asarray(x).tolist() for x in v] for k, v in mesh.cell_data.items()})})


class Topology:
    def __init__(self, mesh, dim=2):
        self._mesh, self.dim = mesh, dim

    def create_entities(self, d):
        me().world.collective(me(), f"create_entities({d})")

    def create_connectivity(self, a, b):
        me().world.collective(me(), f"create_connectivity({a},{b})")


class SimMesh:
    def __init__(self, token):
        self.token = token
        self.topology = Topology(self)
        self.comm = COMM
        self.name = "mesh"
        self.tags = []


class XDMF:
    def __init__(self, comm, filename, mode="r", **_kw):
        self.filename, self.comm, self.mode = str(filename), comm, mode
        if mode != "r":
            me().world.collective(me(), f"open {os.path.basename(self.filename)} for writing")
            return
        me().world.read(me(), self.filename)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def _collective(self, what):
        c = me().world.read(me(), self.filename)
        if "xdmf" not in c:
            raise Violation("exchange", f"{os.path.basename(self.filename)} is not an XDMF file")
        if isinstance(self.comm, Comm):
            d = me().world.collective(me(), f"{what} {os.path.basename(self.filename)}", digest(c))
            if len(set(d.values())) > 1:
                raise Violation("different meshes", f"the processes read different contents of {os.path.basename(self.filename)}: {d}")
        return c

    def read_mesh(self, ghost_mode=None, name="mesh", **_kw):
        c = self._collective("read_mesh")
        return SimMesh(digest(c, str(ghost_mode), name))

    def read_meshtags(self, mesh, name="mesh", **_kw):
        c = self._collective("read_meshtags")
        mesh.tags.append(digest(c, name))
        return types.SimpleNamespace(values=np.array([1]), dim=1)

    def write_mesh(self, mesh, *_a):
        me().world.collective(me(), "write_mesh")


def sim_refine(mesh, edges=None, redistribute=True, **_kw):
    d = me().world.collective(me(), "refine", mesh.token)
    if len(set(d.values())) > 1:
        raise Violation("different meshes", "the processes refine different meshes")
    m = SimMesh(digest(mesh.token, "refined"))
    return m


COMM = Comm()


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def install():
    import enum
    mpi = _mod("mpi4py.MPI", COMM_WORLD=COMM, COMM_SELF=CommSelf(), SUM="SUM", MAX="MAX", Comm=Comm)
    _mod("mpi4py", MPI=mpi, __path__=[])
    cad = Cad()
    g = types.ModuleType("gmsh")
    g.__getattr__ = lambda n: getattr(cad, n)
    sys.modules["gmsh"] = g
    _mod("meshio", read=mio_read, write=mio_write, Mesh=MioMesh, xdmf=types.SimpleNamespace(write=mio_write, read=mio_read),
         CellBlock=lambda t, d: types.SimpleNamespace(type=t, data=d))
    gio = _mod("dolfinx.io.gmshio", ufl_mesh=lambda *a: repr(a), model_to_mesh=None)
    io = _mod("dolfinx.io", XDMFFile=XDMF, gmshio=gio, __path__=[])
    CellType = enum.Enum("CellType", "interval triangle quadrilateral tetrahedron hexahedron")
    GhostMode = enum.Enum("GhostMode", "none shared_facet shared_vertex")
    mesh = _mod("dolfinx.mesh", CellType=CellType, GhostMode=GhostMode, create_mesh=sim_create_mesh, refine=sim_refine,
                compute_incident_entities=lambda m, c, a, b: np.arange(3), locate_entities=lambda m, d, f: np.arange(1), meshtags=None)
    cio = _mod("dolfinx.cpp.io", perm_gmsh=lambda _t, n: np.arange(n)[::-1])
    cpp = _mod("dolfinx.cpp", io=cio, __path__=[])
    _mod("dolfinx", io=io, mesh=mesh, cpp=cpp, __version__="0.6.0", __path__=[])
    if str(paths.FAKE) not in sys.path:
        sys.path.append(str(paths.FAKE))  # for the version metadata only

    def wrap(name, kind):
        real = _REAL[name]

        def f(*a, **k):
            p = me()
            if p is None:
                return real(*a, **k)
            p.point(kind, tuple(os.path.basename(str(x)) for x in a))
            if kind == "rename":
                src, dst = (os.path.abspath(str(x)) for x in a[:2])
                if p.rank != 0 and p.world.size > 1:
                    raise Violation("writer", f"process {p.rank} replaces {os.path.basename(dst)}")
                # readers of an atomically replaced file keep the old one
            if kind == "remove" and p.world.readers.get(os.path.abspath(str(a[0]))):
                raise Violation("overwritten", f"process {p.rank} removes {a[0]} while it is read")
            r = real(*a, **k)
            p.note(repr(r))
            return r
        return f
    os.path.exists, os.path.isfile = wrap("exists", "exists"), wrap("isfile", "exists")
    os.replace, os.rename = wrap("replace", "rename"), wrap("rename", "rename")
    os.remove, os.unlink = wrap("remove", "remove"), wrap("unlink", "remove")
    time.sleep = lambda s, _r=_REAL["sleep"]: me().point("sleep") if me() else _r(s)


def load():
    """The module under test, separately for every process."""
    for m in [m for m in sys.modules if m == "dxss" or m.startswith("dxss.")]:
        del sys.modules[m]
    return importlib.import_module("dxss.meshes")


MODULES = []


def modules(n):
    if "gmsh" not in sys.modules or not isinstance(sys.modules["gmsh"].__dict__.get("__getattr__"), types.FunctionType):
        install()
    while len(MODULES) < n:
        MODULES.append(load())
    return MODULES


def program_of(calls):
    """calls: list of (function name, args, kwargs)."""
    def program(p):
        out = []
        for name, args, kw in calls:
            r = getattr(MODULES[p.rank], name)(*args, **kw)
            if p.cad is not None:
                raise Violation("session", f"process {p.rank} leaves the CAD session open after {name}")
            out.append([(m.token, tuple(m.tags)) for m in (r if isinstance(r, list) else [r])])
        return out
    return program


def explore(size, calls, limit=200000):
    """All schedules. Returns dict(states, transitions, schedules, violation=(key, text, schedule) or None, results)."""
    modules(max(size, 1))
    import contextlib
    import io as _io
    program = program_of(calls)
    seen, todo = set(), [()]
    stats = {"states": 0, "transitions": 0, "schedules": 0, "violation": None, "results": None}
    results = set()
    root = tempfile.mkdtemp(prefix="verif-sim-")
    old = os.getcwd()
    import gc
    try:
        while todo:
            prefix = todo.pop()
            d = tempfile.mkdtemp(dir=root)
            os.chdir(d)
            w = World(size, program)

            def visit(state, enabled, order):
                if state in seen:
                    return False
                seen.add(state)
                for r in enabled[1:]:
                    todo.append((*order, r))
                return True
            try:
                with contextlib.redirect_stdout(_io.StringIO()):
                    how = w.run(prefix, visit)
                stats["schedules"] += 1
                stats["transitions"] += len(w.order) - len(prefix) + (1 if prefix else 0)
                if how == "end":
                    results.add(repr([p.result for p in w.procs]))
                    if any(p.result != w.procs[0].result for p in w.procs):
                        raise Violation("different meshes", f"the processes obtain different meshes: {[p.result for p in w.procs]}")
            except Violation as e:
                who = " ".join(str(r) for r in w.order)
                last = {p.rank: p.trace[-4:] for p in w.procs}
                stats["violation"] = (e.key, f"{e}; last operations {last}" + getattr(e, "tb", ""), who)
                break
            finally:
                os.chdir(old)
                shutil.rmtree(d, ignore_errors=True)
            if len(seen) > limit:
                raise RuntimeError("too many states")
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    stats["states"] = len(seen)
    stats["seen"] = seen
    stats["results"] = results
    return stats
