"""Small serial stand-in for the part of DOLFINx 0.6 that dxss uses (affine meshes, Lagrange spaces)."""
import sys as _sys

import ufl.algorithms.analysis as _analysis
import ufl.form  # noqa: F401

from dolfinx import _env, cpp

# UFL rescans and re-sorts the whole form at every "a += ..." (quadratic) to number Constants and to stabilise
# signatures; the stand-in needs neither.
_analysis.extract_constants = lambda _form: []
_sys.modules["ufl.form"]._sorted_integrals = tuple

__version__ = _env.version
