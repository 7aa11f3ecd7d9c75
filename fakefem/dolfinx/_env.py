"""Environment choices of the DOLFINx stand-in, decided by the harness (never at random).

numbering: how degrees of freedom are numbered (DOLFINx promises nothing about it):
  "blocked"     component after component
  "interleaved" node after node, component fastest
  "permuted"    a fixed pseudo-random permutation of everything (also of the mesh nodes)
max_box: if set, create_box/create_unit_interval clamp their cell counts to this (keeps driver modules small)
max_interval: same for intervals
version: version string reported for fenics-dolfinx
owned: if set, boolean mask over the cells: the part of the mesh that this (simulated) process integrates in functionals
hook: callable(event, **details) called at externally visible operations (file access, collectives)
"""
numbering = "permuted"
max_box = None
max_interval = None
version = "0.6.0"
hook = None
owned = None


def event(name, **details):
    if hook is not None:
        hook(name, **details)


def version_tuple():
    return tuple(int(p) for p in version.split(".")[:2])
