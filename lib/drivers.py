"""Loads a driver module of dxss (solve_1d, solve_2d, solve_3d) with small problem sizes. Call in a forked child."""
import ast
import importlib.abc
import os
import sys
import types

import paths

paths.use_standin()
from dolfinx import _env  # noqa: E402


class Override(ast.NodeTransformer):
    """Replaces the value of top-level assignments NAME = ... (the constants a user edits)."""

    def __init__(self, values):
        self.values, self.found = values, set()

    def value(self, target, val):
        if isinstance(target, ast.Name) and target.id in self.values and target.id not in self.found:
            self.found.add(target.id)
            return ast.copy_location(ast.Constant(self.values[target.id]), val)
        if isinstance(target, ast.Tuple) and isinstance(val, ast.Tuple) and len(target.elts) == len(val.elts):
            val.elts = [self.value(t, v) for t, v in zip(target.elts, val.elts)]
        return val

    def visit_Module(self, node):
        for st in node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                st.value = self.value(st.targets[0], st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                st.value = self.value(st.target, st.value)
        return node


class Broken(importlib.abc.MetaPathFinder):
    def __init__(self, exc):
        self.exc = exc

    def find_spec(self, name, path=None, target=None):
        if name == "pypardiso":
            raise self.exc("pypardiso")
        return None


def load(dim, overrides=(), pardiso="absent", main=False, max_interval=None, max_box=None, patch=None):
    _env.max_interval, _env.max_box = max_interval, max_box
    sys.modules.pop("pypardiso", None)
    if pardiso == "present":
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fakepardiso"))
    elif pardiso == "absent":
        sys.meta_path.insert(0, Broken(ModuleNotFoundError))
    else:
        sys.meta_path.insert(0, Broken(ImportError))
    if dim == 2:
        import dxss.meshes as M
        import dolfinx.mesh as dm
        from mpi4py import MPI
        orig = M.get_mesh_data_all_around
        level = dict(overrides).get("REF_LVL", 1)

        def small(n_ref, *a, **k):
            # only the levels that are used; the stand-in refines slowly
            got = orig(min(n_ref, level), *a, **k)
            return got + [got[-1]] * (n_ref + 1 - len(got))
        if patch == "coarse":
            def small(n_ref, *a, **k):  # noqa: F811
                return [dm.create_unit_square(MPI.COMM_SELF, 2, 2)] * (n_ref + 1)
        M.get_mesh_data_all_around = small
    name = f"dxss.solve_{dim}d"
    path = str(paths.SRC / "dxss" / f"solve_{dim}d.py")
    tree = ast.parse(open(path).read(), path)
    ov = Override(dict(overrides))
    tree = ast.fix_missing_locations(ov.visit(tree))
    mod = types.ModuleType("__main__" if main else name)
    mod.__file__ = path
    if not main:
        sys.modules[name] = mod
    exec(compile(tree, path, "exec"), mod.__dict__)  # noqa: S102
    return mod, ov.found
