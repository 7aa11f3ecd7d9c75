"""C27: mesh generators can be called in any sequence."""
import os
import shutil
import tempfile

import forktree
import gmsh
import meshing as G
import numpy as np
from runner import guarded

LEVEL = "model_checking"
RULE = ("every sequence of mesh generator calls (13 letters: every generator, some with several parameter sets) up to length 3 (4 in the "
        "thorough tier), in one process and one working directory; a state is a history, a transition one call, whose mesh is compared with "
        "that of a fresh process in an empty directory; after every call the caller deforms the mesh it was given")
ASSUMPTIONS = ["DOLFINx is replaced by a stand-in (fakefem/); gmsh and meshio are real", "calls that succeed in a fresh process"]
TIMEOUT = 600
LETTERS = [
    ("create_initial_mesh_convex", 2.0, None, {}), ("get_mesh_convex", 4.0, 2, {}), ("get_mesh_hierarchy", 4.0, 1, {}),
    ("get_mesh_hierarchy_nonconvex", 4.0, 0, {}), ("get_mesh_hierarchy_fitted_disc", 4.0, 0, {"eta": 0.5}),
    ("get_mesh_inclusion", 2.0, None, {"order": 2}), ("get_mesh_inclusion", 4.0, None, {"order": 1}),
    ("get_mesh_inclusion_square", 4.0, None, {"eta": 1.0}), ("get_mesh_bottom_data", 4.0, None, {}),
    ("get_mesh_bottom_data", 2.0, None, {"eta": 0.3}), ("get_mesh_data_all_around", 4.0, 1, {}), ("get_mesh_data_all_around", None, 0, {}),
    ("get_3d_mesh_data_all_around", 8.0, 0, {}),
]


def cases(tier, seed):
    n = len(LETTERS)
    return [{"prefix": [i, j], "depth": 3 if tier == "quick" else 4} for i in range(n) for j in range(n)]


HELD = []  # the meshes this process was given, with their coordinates as the caller left them


def call(letter):
    """(failures, signatures, session left open)

    Afterwards the caller deforms the mesh it was given, as users do: that is the caller's own mesh, so no later call may be affected, nor may
    it affect meshes the caller holds."""
    name, h, n, p = LETTERS[letter]
    log = Log()
    ok, r = guarded(log, "raises", G.generate, name, h, n, **p)
    if not ok:
        return log.out, None, bool(gmsh.isInitialized())
    meshes = G.as_list(r)
    sig = [G.signature(m) for m in meshes]
    for m, x in HELD:
        if not np.array_equal(m.geometry.x, x):
            log.fail("kept", "a mesh returned by an earlier call is changed")
    for m in meshes:
        if not np.array_equal(m.geometry.x[:, : m.geometry.dim], m._fe.x):
            log.fail("moved", "the mesh has been deformed by somebody else")
        if any(m is o for o, _ in HELD):
            log.fail("same", "returns the mesh of an earlier call")
        x = np.array(m.geometry.x) * 1.25 + 0.125
        m.geometry.x[:] = x
        HELD.append((m, x))
    return log.out, sig, bool(gmsh.isInitialized())


class Log:
    def __init__(self):
        self.out = []

    def fail(self, key, msg, **_):
        self.out.append((key, msg))


def fresh(letter):
    with G.Scratch():
        fails, sig, still = call(letter)
    return fails, sig


_fresh = {}


def reference(letter):
    if letter not in _fresh:
        fails, sig = forktree.branch(fresh, letter)
        _fresh[letter] = sig
    return _fresh[letter]


def text(letters):
    return " -> ".join(f"{LETTERS[i][0]}({LETTERS[i][3] or ''}, h={LETTERS[i][1]}, n_ref={LETTERS[i][2]})" for i in letters)


def explore(prefix, rest, depth, root):
    """Runs in a process that has performed prefix[:-len(rest)]; performs rest, then every continuation."""
    d = tempfile.mkdtemp(dir=root)
    if os.getcwd() != root:
        for f in os.listdir("."):
            if os.path.isfile(f):
                shutil.copy(f, d)
    os.chdir(d)
    fails, edges = [], []
    for i, letter in enumerate(rest):
        done = [*prefix, *rest[: i + 1]]
        ref = REFS[letter]
        f, sig, still = call(letter)
        edges.append(tuple(done))
        for key, msg in f:
            fails.append((f"{key}:{LETTERS[letter][0]}", f"{msg} in the last call of {text(done)}"))
        if sig is not None and ref is not None and sig != ref:
            fails.append((f"mesh:{LETTERS[letter][0]}", f"the last call of {text(done)} gives another mesh than in a fresh process "
                          f"({[len(s[0]) for s in sig]} cells instead of {[len(s[0]) for s in ref]})"))
        if still:
            fails.append((f"session:{LETTERS[letter][0]}", f"CAD session left open after {text(done)}"))
        if fails:
            shutil.rmtree(d, ignore_errors=True)
            return fails, edges
    path = [*prefix, *rest]
    if len(path) < depth:
        for nxt in range(len(LETTERS)):
            try:
                f, e = forktree.branch(explore, path, [nxt], depth, root)
            except forktree.Died as x:
                f, e = [("died", f"{str(x)[-800:]} in {text([*path, nxt])}")], []
            fails += f
            edges += e
            if len(fails) > 3:
                break
    os.chdir(root)
    shutil.rmtree(d, ignore_errors=True)
    return fails, edges


REFS = {}


def run_case(case, rec):
    for i, letter in enumerate(range(len(LETTERS))):
        REFS[letter] = reference(letter)
        rec.expect(REFS[letter] is not None, f"raises:{LETTERS[letter][0]}", f"{text([letter])} fails in a fresh process")
    if rec.failures:
        return
    root = tempfile.mkdtemp(prefix="verif-seq-")
    old = os.getcwd()
    try:
        os.chdir(root)
        fails, edges = forktree.branch(explore, [], case["prefix"], case["depth"], root)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    for key, msg in fails:
        rec.fail(key, msg)
    rec.step(len(edges))
    rec.trace(len(edges))
    for history in edges:
        rec.state(history)
    rec.sample({"histories starting with": text(case["prefix"]), "calls": len(edges), "cells": [[len(s[0]) for s in REFS[i]] for i in case["prefix"]]})
