From 636eb7ab5671e4ca400769c7165c2d982759711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 01/23] fix: interpolate the user's indicator function on
 fitted data domains

The indicator was overwritten by a zero function which was then interpolated
from itself, losing the data term; the caller's DataDomain was modified too.
---
 src/dxss/space_time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..4624ac7 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,10 +146,10 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
-        else:
-            self.omega.indicator_function = self.omega.indicator_function
+            omega_ind = fem.Function(q_ind)
+            omega_ind.interpolate(omega.indicator_function)
+            # keep our own description, the caller's one may be used for other meshes
+            self.omega = dataclasses.replace(omega, indicator_function=omega_ind)
 
         # FESpaces
         self.fes = None
-- 
2.43.0


From 1022ad5af441f55e40f294c7286cb8c06035bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 02/23] fix: two-level preconditioner calls the coarse grid
 operator of the solver

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 4624ac7..e7963aa 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1441,7 +1441,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From 687970bb5909270ce8afbe9b6ff9791c269cce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 03/23] fix: pass right-hand side and solution to the direct
 solver in this order

---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From 0aacb621d7dab9afd3d754d961afc5b87109fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 04/23] fix: do not confuse the full and the block lower
 triangular space-time matrix

The first variant requested was returned for the other one as well.
---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e7963aa..356547f 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -179,6 +179,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None  # which variant the two above hold
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -707,7 +708,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -715,16 +716,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From d182bb0c0990f4fb9e81d3c056ac9933da406f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 05/23] fix: prepare everything the slab operations need
 whatever was set up before

When the slab matrix had been requested first, b_rhs_pre was never created; for
well-posed problems the slab matrix without jumps was never assembled.
---
 src/dxss/space_time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 356547f..5aaebb6 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -212,6 +212,7 @@ class SpaceTime:
         self.u2_0_pre = None
         self.vec_0_bnd_in = None
         self.vec_0_bnd_out = None
+        self.b_rhs_pre = None
 
         # auxiliary FEM functions
         self.u1_0 = None
@@ -1115,9 +1116,13 @@ class SpaceTime:
         return self.slab_matrix
 
     def get_slab_bfi_first_slab(self):
+        if not self.SlabBfiFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabBfiFirstSlab
 
     def get_slab_matrix_first_slab(self):
+        if not self.SlabMatFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabMatFirstSlab
 
     def set_solver_first_slab(self, solver):
@@ -1332,9 +1337,10 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
-            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
+        if not self.b_rhs_pre:
+            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
         if not self.SpaceTimeRhs:
-- 
2.43.0


From 63505c8647e565b35104123d336e986dfce3fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 06/23] fix: coarse grid correction may be prepared before the
 right-hand side

---
 src/dxss/space_time.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 5aaebb6..0dca331 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1396,12 +1396,12 @@ class SpaceTime:
             precond=False,
         )
 
-        self.tmp1_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp2_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp3_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp4_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp5_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp6_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
+        self.tmp1_fine = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp2_fine = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp3_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp4_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp5_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp6_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
         self.tmp1_coarse, self.tmp2_coarse = self.SpaceTimeMatCoarse.createVecs()
 
     def get_spacetime_matrix_coarse(self):
-- 
2.43.0


From c57c783545ad3057b0413848ff1e81e6c5604b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 07/23] fix: include the initial data terms in the matrix-free
 product

For well-posed problems it differed from the assembled space-time matrix, so
the iterative solver solved another system.
---
 src/dxss/space_time.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 0dca331..7e2a789 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1168,6 +1168,21 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ] += self.vec_slab2.array[self.dofmaps_pre[j][ell]]
 
+            if n == 0 and self.well_posed:
+                # initial data terms
+                for j in range(2):
+                    self.vec_0_bnd_in.array[self.dofmaps_slab_bnd[j]] = vec_in.array[
+                        self.dofmaps_full[j][0]
+                    ]
+                self.scaled_mass_matrix_between_slices.mult(
+                    self.vec_0_bnd_in,
+                    self.vec_0_bnd_out,
+                )
+                for j in range(2):
+                    vec_out.array[self.dofmaps_full[j][0]] += self.vec_0_bnd_out.array[
+                        self.dofmaps_slab_bnd[j]
+                    ]
+
             if n > 0:
                 for j in range(2):
                     for i in range(2):
-- 
2.43.0


From 44889409fe4ab049622d86d4c505dbd89d72d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 08/23] fix: measuring or exporting a solution must not
 overwrite the initial data

u1_0 and u2_0 hold the initial data of well-posed problems.
---
 src/dxss/space_time.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 7e2a789..93ed208 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1484,10 +1484,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1855,8 +1855,8 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1876,8 +1876,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end)
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end)
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From bb35ea902247f2ea11df146176617845cc8cf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 09/23] fix: measure the error at the final time for every
 number of slabs

For N = 6, 14, 24, ... rounding dropped the last sample point.
---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 93ed208..5765ec1 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1542,8 +1542,10 @@ class SpaceTime:
                 error_dt_tni = self.msh.comm.allreduce(error_dt_tni_local, op=MPI.SUM)
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
+            # rounding must not lose sample points at the ends of the slabs
+            t_end = (n + 1) * delta_t if n < self.N - 1 else self.T
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                if t_sample >= t_n and t_sample <= t_end:
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From f8d315b455a35941b737d60a57ed1558ddd178d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 10/23] fix: reject only non-sequential node numbers when
 reading gmsh meshes

The check was inverted: every mesh with sequential node numbers was rejected.
---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 83f6eea53287a74faf9a768acd229b3c0152e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 11/23] fix: get_mesh_inclusion_square called an undefined
 function

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From 3e6fd46fb506055447c49c00f68444dfa757f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 12/23] fix: close the CAD session in every mesh generator and
 on every process

---
 src/dxss/meshes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..bec8f5d 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -78,7 +78,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -382,7 +382,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From f6f9e78d2018fb74f66c030a7af08035f45f1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 13/23] fix: distribute the GMRes operator like the right-hand
 side

Uneven distributions and right-hand sides on sub-communicators were rejected.
---
 src/dxss/gmres.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..6e61fff 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -50,10 +50,13 @@ def get_gmres_solution(
     # Renaming for readability and consistency with PETSc docs. Potentially a minor inefficiency.
     context = A
 
-    N = b.getSize()  # noqa: N806 | global vector size variables use uppercase in PETSc
-
-    # Create a PETSc shell matrix of appropriate global size (N x N)
-    A_shell = PETSc.Mat().createPython(N, context)  # noqa: N806 | convention for matrix
+    # Create a square PETSc shell matrix distributed like the right-hand side
+    sizes = b.getSizes()  # local and global size
+    A_shell = PETSc.Mat().createPython(  # noqa: N806 | convention for matrix
+        (sizes, sizes),
+        context,
+        comm=b.getComm(),
+    )
     A_shell.setUp()
 
     ksp = PETSc.KSP()
-- 
2.43.0


From 8ff532e1f39ff6a7af74e8cc7a37046bce656f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 14/23] fix: wait until the mesh files are written before
 reading them in parallel

---
 src/dxss/meshes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index bec8f5d..39274f9 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -101,6 +101,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    MPI.COMM_WORLD.barrier()  # nobody may read the files before they are written
 
     # for i in range(n_ref):
 
@@ -203,6 +204,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    MPI.COMM_WORLD.barrier()  # nobody may read the files before they are written
 
     # for i in range(n_ref):
 
@@ -295,6 +297,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    MPI.COMM_WORLD.barrier()  # nobody may read the files before they are written
 
     # for i in range(n_ref):
     with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
@@ -405,6 +408,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    MPI.COMM_WORLD.barrier()  # nobody may read the files before they are written
 
     # for i in range(n_ref):
 
@@ -831,6 +835,7 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    MPI.COMM_WORLD.barrier()  # nobody may read the files before they are written
 
     # for i in range(n_ref):
 
-- 
2.43.0


From db068abe9d412ed6f3c5c64efaf85b270d331528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 15/23] fix: stabilisation terms may be switched off by a zero
 weight

The boundary and interior facet measures had no domain, so UFL rejected them.
---
 src/dxss/space_time.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 5765ec1..bdf536b 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -14,7 +14,7 @@ from dxh import evaluate_function_at_points
 from matplotlib import colors
 from matplotlib.ticker import MaxNLocator
 from mpi4py import MPI
-from ufl import div, dS, ds, grad, inner, jump
+from ufl import div, grad, inner, jump
 
 if TYPE_CHECKING:
     from petsc4py import PETSc
@@ -357,6 +357,9 @@ class SpaceTime:
         w1, w2, y1, y2 = ufl.TestFunctions(afes)
 
         dx = ufl.Measure("dx", domain=afes.mesh, metadata=self.metadata)
+        # with a domain, so that terms with a zero weight can be integrated as well
+        ds = ufl.Measure("ds", domain=afes.mesh)
+        dS = ufl.Measure("dS", domain=afes.mesh)  # noqa: N806 | convention
         n_facet = ufl.FacetNormal(afes.mesh)
         h = ufl.CellDiameter(afes.mesh)
 
@@ -879,6 +882,9 @@ class SpaceTime:
         w1_p, w2_p, y1_p, y2_p = ufl.TestFunctions(self.fes_p)
 
         dx = self.dx
+        # with a domain, so that terms with a zero weight can be integrated as well
+        ds = ufl.Measure("ds", domain=self.msh)
+        dS = ufl.Measure("dS", domain=self.msh)  # noqa: N806 | convention
         n_facet = self.n_facet
         h = self.h
         delta_t = self.delta_t
-- 
2.43.0


From 5ed3a8c5c907ea89971689d56a93141566c8cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 16/23] fix: transfer dual variables whose space order differs
 between meshes

---
 src/dxss/space_time.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index bdf536b..e97c86d 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -249,6 +249,8 @@ class SpaceTime:
         self.dofmap_node_fine = None
         self.u_node_fine = None
         self.u_node_coarse = None
+        self.u_node_fine_dual = None
+        self.u_node_coarse_dual = None
 
     def setup_spacetime_finite_elements(self):
         # Full Space-time system
@@ -1411,6 +1413,11 @@ class SpaceTime:
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
         self.u_node_fine = fem.Function(self.fes_node_fine)
         self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # the dual variables may have another order in space
+        self.u_node_fine_dual = fem.Function(self.fes.sub(2).sub(0).collapse()[0])
+        self.u_node_coarse_dual = fem.Function(
+            self.fes_coarse.sub(2).sub(0).collapse()[0],
+        )
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1436,15 +1443,18 @@ class SpaceTime:
         int_idx_qstar = 0
         for _n in range(self.N):
             for j in range(4):
-                shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                primal = j in [0, 1]
+                shift_idx = int_idx_q if primal else int_idx_qstar
+                u_coarse = self.u_node_coarse if primal else self.u_node_coarse_dual
+                u_fine = self.u_node_fine if primal else self.u_node_fine_dual
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    u_coarse.x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    u_fine.interpolate(u_coarse)
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = u_fine.x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1453,15 +1463,18 @@ class SpaceTime:
         int_idx_qstar = 0
         for _n in range(self.N):
             for j in range(4):
-                shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                primal = j in [0, 1]
+                shift_idx = int_idx_q if primal else int_idx_qstar
+                u_coarse = self.u_node_coarse if primal else self.u_node_coarse_dual
+                u_fine = self.u_node_fine if primal else self.u_node_fine_dual
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    u_fine.x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    u_coarse.interpolate(u_fine)
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = u_coarse.x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From c24086789a4295c47df16ddb4cb4fc6f68f4563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 17/23] fix: return the residual of the returned solution

---
 src/dxss/gmres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 6e61fff..255be5c 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -104,6 +104,9 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # ksp.buildResidual() would add the correction of the last cycle to x once more
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)  # r = b - A @ x
 
     return (x, r)
-- 
2.43.0


From 5d758031d4da8cefd9497f66cb50ce0936d6973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 18/23] fix: inclusion mesh whose target domain ends at eta
 (the default arguments)

---
 src/dxss/meshes.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 39274f9..875c4b7 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -559,25 +559,21 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            parts = [(2, target_dom_minus)]
+            if y_r != eta:  # otherwise the target domain ends at eta
+                target_dom_plus = gmsh.model.occ.addRectangle(
+                    x_l,
+                    eta,
+                    0,
+                    x_r - x_l,
+                    y_r - eta,
+                )
+                parts.append((2, target_dom_plus))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
-            gmsh.model.occ.fragment(
-                [(2, 3)],
-                [
-                    (2, target_dom_minus),
-                    (2, mu_inner),
-                    (2, target_dom_plus),
-                    (2, remainder_top),
-                ],
-            )
+            parts += [(2, mu_inner), (2, remainder_top)]
+            gmsh.model.occ.fragment([(2, 3)], parts)
 
             gmsh.model.occ.synchronize()
 
-- 
2.43.0


From aac0ed8d933f6717d758367ec9bb7940af83659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 19/23] fix: get_sparse_matrix lost trailing empty columns

---
 src/dxss/space_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e97c86d..d1c6c3f 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -67,7 +67,8 @@ _DEFAULT_PARAMETERS = ProblemParameters()
 # TODO: this is duplicated... factor out to a "PETSc interface functions" file?
 def get_sparse_matrix(mat):
     ai, aj, av = mat.getValuesCSR()
-    return sp.csr_matrix((av, aj, ai))
+    # with the shape, which the entries do not show if the last columns are empty
+    return sp.csr_matrix((av, aj, ai), shape=(len(ai) - 1, mat.getSize()[1]))
 
 
 class SpaceTime:
-- 
2.43.0


From 1504c539677d566a32ca083b3d814dc83fd1157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 20/23] fix: generators of fitted target domains fail on all
 processes but the first

---
 src/dxss/meshes.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 875c4b7..f999366 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -501,6 +501,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -508,13 +512,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has cells
+    cells = np.array(node_tags, dtype=np.uint64).reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -629,6 +630,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -636,13 +641,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has cells
+    cells = np.array(node_tags, dtype=np.uint64).reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -732,6 +734,10 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -739,13 +745,10 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has cells
+    cells = np.array(node_tags, dtype=np.uint64).reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
-- 
2.43.0


From 8ec7a4708e84ce58f75698e099e72bcb38634261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 21/23] fix: mark B without omega, not the rest, in the
 nonconvex mesh

The surface with the centre of mass (0.5, 0.5) is the rest of the unit square,
B without omega has its centre of mass at (0.5, 0.6125): the two subdomains
carried each other's marker.
---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index f999366..e98c5a9 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -255,7 +255,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
             print(com)
             if np.allclose(com, [0.5, 0.275, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], omega_marker)
-            elif np.allclose(com, [0.5, 0.5, 0]):
+            elif np.allclose(com, [0.5, 0.6125, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], b_withoutomega_marker)
             else:
                 gmsh.model.addPhysicalGroup(2, [surface[1]], rest_marker)
-- 
2.43.0


From d0a71d5da7f3ae97e4c8106709059aa261b5db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 22/23] fix: mark the boundary of the inclusion meshes

Their domain is (-1.5, 1.5)^2, but the lines to mark were looked up at the
coordinates of the unit square's boundary, so that interior lines were marked
as boundary and most of the boundary was not.
---
 src/dxss/meshes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index e98c5a9..5b019f8 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -476,10 +476,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         for line in gmsh.model.getEntities(dim=1):
             com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
             if (
-                np.isclose(com[0], 0)
-                or np.isclose(com[0], 1)
-                or np.isclose(com[1], 0)
-                or np.isclose(com[1], 1)
+                np.isclose(com[0], -1.5)
+                or np.isclose(com[0], 1.5)
+                or np.isclose(com[1], -1.5)
+                or np.isclose(com[1], 1.5)
             ):
                 bnd_square.append(line[1])
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
@@ -604,10 +604,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         for line in gmsh.model.getEntities(dim=1):
             com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
             if (
-                np.isclose(com[0], 0)
-                or np.isclose(com[0], 1)
-                or np.isclose(com[1], 0)
-                or np.isclose(com[1], 1)
+                np.isclose(com[0], -1.5)
+                or np.isclose(com[0], 1.5)
+                or np.isclose(com[1], -1.5)
+                or np.isclose(com[1], 1.5)
             ):
                 bnd_square.append(line[1])
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
-- 
2.43.0


From 590eb92ecccbf0f96ece5876f0d987bee4ecea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:59 +0000
Subject: [PATCH 23/23] fix: fill the remainder of the inclusion square for
 smaller target domains

---
 src/dxss/meshes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5b019f8..3bd1a52 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -572,8 +572,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 parts.append((2, target_dom_plus))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
+            # fills what was cut out and is not covered by the target domain
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.15 + eta)
             gmsh.model.occ.synchronize()
-            parts += [(2, mu_inner), (2, remainder_top)]
+            parts += [(2, mu_inner), (2, remainder_top), (2, remainder)]
             gmsh.model.occ.fragment([(2, 3)], parts)
 
             gmsh.model.occ.synchronize()
-- 
2.43.0

