"""Set-up: everything the checks need is there, and the DOLFINx stand-in computes what it should (independent of dxss)."""
import itertools
import math
import shutil
import subprocess
import sys

import numpy as np
import paths




def standin():
    paths.use_standin()
    import ufl
    from dolfinx import fem
    from dolfinx import mesh as dm
    from dolfinx.fem import petsc as fp
    from mpi4py import MPI
    c = MPI.COMM_SELF
    n = 0
    rng = np.random.default_rng(1)
    meshes = {"interval": dm.create_interval(c, 3, (0.0, 1.0)), "triangle": dm.create_unit_square(c, 2, 2),
              "quadrilateral": dm.create_unit_square(c, 2, 1, dm.CellType.quadrilateral), "tetrahedron": dm.create_unit_cube(c, 1, 1, 1),
              "hexahedron": dm.create_unit_cube(c, 2, 1, 1, dm.CellType.hexahedron)}
    for cell, m in meshes.items():
        d = m.geometry.dim
        x = ufl.SpatialCoordinate(m)
        for e in itertools.product(range(4), repeat=d):
            if sum(e) > 4:
                continue
            f = 1.0
            for a in range(d):
                f = f * x[a] ** e[a] if e[a] else f
            got = fem.assemble_scalar(fem.form(f * ufl.dx(domain=m, metadata={"quadrature_degree": 6})))
            want = math.prod(1 / (a + 1) for a in e)  # over the unit cube
            assert abs(got - want) < 1e-12, (cell, e, got, want)
            n += 1
        for k in (1, 2, 3) if d < 3 else (1, 2):
            V = fem.FunctionSpace(m, ("Lagrange", k))
            coef = rng.integers(1, 5, size=(d, k + 1))

            def p(X, coef=coef, k=k, d=d):
                return sum(coef[a][j] * X[a] ** j for a in range(d) for j in range(k + 1))
            u = fem.Function(V)
            u.interpolate(p)
            ue = sum(float(coef[a][j]) * (x[a] ** j if j else 1.0) for a in range(d) for j in range(k + 1))
            err = fem.assemble_scalar(fem.form((u - ue) ** 2 * ufl.dx(domain=m, metadata={"quadrature_degree": 2 * k})))
            assert abs(err) < 1e-20, (cell, k, err)
            # partial integration: the stiffness matrix applied to a polynomial
            v, w = ufl.TestFunction(V), ufl.TrialFunction(V)
            A = fp.assemble_matrix(fem.form(ufl.inner(ufl.grad(w), ufl.grad(v)) * ufl.dx))
            A.assemble()
            y = A.createVecLeft()
            A.mult(u.vector, y)
            nrm = ufl.FacetNormal(m)
            lap = ufl.div(ufl.grad(ue))
            b = fem.petsc.assemble_vector(fem.form(-lap * v * ufl.dx(metadata={"quadrature_degree": 2 * k}) + ufl.dot(ufl.grad(ue), nrm) * v * ufl.ds(metadata={"quadrature_degree": 2 * k})))
            assert np.allclose(y.array, b.array, atol=1e-9), (cell, k)
            # no jump of a continuous function and of the gradient of a global polynomial
            h = fem.assemble_scalar(fem.form(ufl.jump(ufl.grad(u), nrm) ** 2 * ufl.dS(metadata={"quadrature_degree": 2 * k})))
            assert abs(h) < 1e-18, (cell, k, h)
            n += 3
    import stprob as P
    for spec in (["interval", 2], ["square", 2, 1], ["skew"], ["tet", 1]):
        coarse = P.make_mesh(spec)
        import meshing as G
        fine = P.refine_uniform(coarse)
        if coarse.geometry.dim > 1:
            kids = G.children(coarse, fine)
            assert all(len(k) == 2 ** coarse.geometry.dim for k in kids)
            assert np.isclose(G.volumes(coarse._fe).sum(), G.volumes(fine._fe).sum())
        n += 1
    return n


def main():
    assert sys.version_info[:2] >= (3, 10)
    import gmsh
    import matplotlib  # noqa: F401
    import meshio  # noqa: F401
    import petsc4py  # noqa: F401
    import scipy  # noqa: F401
    gmsh.initialize()
    gmsh.model.occ.addRectangle(0, 0, 0, 1, 1)
    gmsh.model.occ.synchronize()
    gmsh.model.mesh.generate(2)
    assert len(gmsh.model.mesh.getNodes()[0]) > 4
    gmsh.finalize()
    assert shutil.which("mpirun")
    r = subprocess.run(["mpirun", "--oversubscribe", "-n", "2", sys.executable, "-c", "from mpi4py import MPI; assert MPI.COMM_WORLD.size == 2"],
                       capture_output=True, timeout=120, check=False)
    assert r.returncode == 0, r.stderr
    n = standin()
    (paths.VERIF / "evidence").mkdir(exist_ok=True)
    print(f"self test: {n} stand-in tests passed")
    return 0
