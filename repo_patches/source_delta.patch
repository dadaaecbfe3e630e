From e038f98fa434ee9be58b08a3504ef22b75685a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 01/19] fix: keep element properties as floats, integer input
 truncated later assignments

---
 src/trusspy/handlers/handler_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..8640b79 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,8 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array([E.geometric_properties], dtype=float)
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 420676db9915ba2f8a245e85a60c9e1d6d928bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 02/19] fix: delete the element and material type together with
 the element

---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 8640b79..6bcf9a5 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -103,6 +103,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From c4a28b1d0f7a7e0cbc52bf7604e7cd14693c9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 03/19] fix: print an integer initial control component in the
 run summary

---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..1d1e64c 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 is None else f"{self.Settings.j0}|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
-- 
2.43.0


From 1250a5bb89707685531274f4e4699eb472996005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 04/19] fix: do not skip the nonlinear solution if the
 predictor meets the tolerances

---
 src/trusspy/solvers/tpsolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..4739f0c 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -402,8 +402,9 @@ def pathfollow(
             # set the found solution to j
             j = j_pre
 
-            if abs(v1) > dxtol:
-                nr_success_pre = False
+            # the linearized solution only identifies j, it is never accepted
+            # as the solution of the increment
+            nr_success_pre = False
 
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
-- 
2.43.0


From c9df7528e8fde726f70ba8281553306f70cb4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 05/19] fix: do not store an increment which did not converge

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 1d1e64c..e6fe834 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 4739f0c..c35206a 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -542,8 +542,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error, the increment is not valid
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -555,10 +558,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From 4fddd79eb67b6995d7f0341d45afd6140c926c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 06/19] fix: plot elements between their own nodes for
 non-consecutive node labels

---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..5db95eb 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -121,7 +121,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From 2c141376bb4d4994fd3d1d579b3b2032393bf97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 07/19] fix: keep the order of movie frames for more than 999
 increments

---
 src/trusspy/tools/movie_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..90f7300 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,7 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From f08477667610004dbd2bb5373e341b95660f2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 08/19] fix: use the initial control component given by the
 user

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index c35206a..cc28fd4 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -324,7 +324,7 @@ def pathfollow(
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-    if not j_fixed:
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From 90245356b788250eaabba6508c535ce4f6f16726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 09/19] fix: print nothing at log level 0

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index e6fe834..4533a84 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -336,7 +336,7 @@ Dutzler Andreas, Graz University of Technology, 2023
                     self.Results.step_lpf_end[s]
                     * self.ExtForces.forces[:, 3 * (s) : 3 * (s + 1)]
                 )
-            if len(range(step)) != 0:
+            if len(range(step)) != 0 and self.Settings.log > 0:
                 print("\nconstant part of external forces due to previous step(s)")
                 print("    ", f0_const, "\n")
                 print("\ninitial values of active DOF due to previous step(s)")
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index cc28fd4..bc99234 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -503,7 +503,7 @@ def pathfollow(
                     maxfac,
                     reduce,
                     increase,
-                    verbose=2,
+                    verbose,
                 )
 
             if solution_valid and nr_success:
@@ -539,8 +539,9 @@ def pathfollow(
             z = z + 1
             n_pre = 0
 
-            print("")
-            print("* recycling increment")
+            if verbose > 0:
+                print("")
+                print("* recycling increment")
 
         # Stop due to error, the increment is not valid
         if stop:
-- 
2.43.0


From 4edeb7741ccdb46474e1732cbdcd2410d6448c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 10/19] fix: allow step control with a list of limits per
 component

---
 src/trusspy/solvers/tpsolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index bc99234..dc9ee1e 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -317,6 +317,8 @@ def pathfollow(
             dxm[:-1] = np.ones(len(x) - 1) * dxmax[0]
             dxm[-1] = dxmax[-1]
             dxmax = dxm
+        else:
+            dxmax = np.array(dxmax, dtype=float)
 
     except:
         # if dxmax is a scalar: assign it to every component of dx
-- 
2.43.0


From f40962d18759c750d0d3ee2e99bf6b6c2681de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 11/19] fix: give the output stream back if the run of a logged
 model fails

---
 src/trusspy/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 4533a84..590899f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -201,6 +201,14 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        try:
+            self._run()
+        finally:
+            # give the output stream back, even if the job fails
+            if self.logfile:
+                sys.stdout = self.stdout
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -437,9 +445,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From 6f0ff3973a003e1cfbba9e5f1a66f1b3abb5258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 12/19] fix: keep the table of supports two-dimensional for a
 single support

---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..b981f3d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From 545c423f1dc21333df4f43396335baaf57b08e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 13/19] fix: let a support or load replace the default of a
 former build

---
 src/trusspy/handlers/handler_boundary.py | 14 ++++++++++++++
 src/trusspy/handlers/handler_extforce.py | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index b981f3d..1202d07 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -22,6 +22,9 @@ class BoundaryHandler:
         # 0=inactive (locked) DOF
         self.Uvalues = None
 
+        # nodes which are free by default (added by the build of a model)
+        self.Udefaults = []
+
         # NOT IMPLEMENTED
         # Element based thermal boundary condition
         self.Telements = None
@@ -39,6 +42,10 @@ class BoundaryHandler:
         if "BoundaryU" not in str(type(B)):
             B = BoundaryU(B, *args, **kwargs)
 
+        # a definition replaces the default of a former build
+        if B.node in self.Udefaults:
+            self.del_bound_U(B.node)
+
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
             self.Uvalues = np.array([B.values])
@@ -51,6 +58,7 @@ class BoundaryHandler:
         idx = np.where(self.Unodes == label)[0]
         self.Unodes = np.delete(self.Unodes, idx, axis=0)
         self.Uvalues = np.delete(self.Uvalues, idx, axis=0)
+        self.Udefaults = [n for n in self.Udefaults if n != label]
 
     def add_bounds_U(self, BB):
         """add list of displacement boundaries"""
@@ -58,6 +66,11 @@ class BoundaryHandler:
             self.add_bound_U(B)
 
     def fix_bounds_U(self, nodelist):
+        # drop defaults of nodes which do not exist anymore
+        for n in self.Udefaults:
+            if n not in nodelist:
+                self.del_bound_U(n)
+
         # check for undefined DOF --> set them all to free
 
         # are nodelist entries in Unodes?
@@ -66,6 +79,7 @@ class BoundaryHandler:
         for n in fix_nodes:
             B = BoundaryU(n, (1, 1, 1))
             self.add_bound_U(B)
+            self.Udefaults.append(n)
         indices = np.argsort(self.Unodes)
         self.Unodes = self.Unodes.take(indices)
         self.Uvalues = self.Uvalues.take(indices, axis=0)
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7e703ab..d70110d 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -17,6 +17,9 @@ class ExternalForceHandler:
         self.nodes = None
         self.forces = None
 
+        # nodes without a load by default (added by the build of a model)
+        self.defaults = []
+
     def __enter__(self):
         return self
 
@@ -27,6 +30,10 @@ class ExternalForceHandler:
         if "ExternalForce" not in str(type(F)):
             F = ExternalForce(F, *args, **kwargs)
 
+        # a definition replaces the default of a former build
+        if F.node in self.defaults:
+            self.del_force(F.node)
+
         if self.nodes is None:
             self.nodes = np.array([F.node])
             self.forces = np.array([F.force])
@@ -38,12 +45,18 @@ class ExternalForceHandler:
         idx = np.where(self.nodes == label)[0]
         self.nodes = np.delete(self.nodes, idx, axis=0)
         self.forces = np.delete(self.forces, idx, axis=0)
+        self.defaults = [n for n in self.defaults if n != label]
 
     def add_forces(self, FF):
         for F in FF:
             self.add_force(F)
 
     def fix_forces(self, nodelist):
+        # drop defaults of nodes which do not exist anymore
+        for n in self.defaults:
+            if n not in nodelist:
+                self.del_force(n)
+
         # check for missing external forces --> set them all to zero
 
         # are nodelist entries in force-nodes?
@@ -53,6 +66,7 @@ class ExternalForceHandler:
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
+            self.defaults.append(n)
         indices = np.argsort(self.nodes)
         self.nodes = self.nodes.take(indices)
         self.forces = self.forces.take(indices, axis=0)
-- 
2.43.0


From 65a00d84fcf53e36fcba877393d1da4f95ac05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 14/19] fix: accept an array of increments for a movie

---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 5db95eb..d9a3ba7 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -184,7 +184,7 @@ def p_movie(
     incs="all",
     **kwargs,
 ):
-    if incs == "all":
+    if isinstance(incs, str) and incs == "all":
         incs = range(1, len(self.Results.R))
 
     if os.path.isdir("figures/"):
-- 
2.43.0


From d4b6fee0334f578a78c779c0db193ea2f4b4ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 15/19] fix: sort movie frames of negative increments by their
 number

---
 src/trusspy/tools/plot_utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index d9a3ba7..e53a189 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -193,6 +193,9 @@ def p_movie(
     os.mkdir("figures/png/")
 
     for i in incs:
+        # negative increments count from the end, the order of the frames needs numbers
+        if i < 0:
+            i = len(self.Results.R) + i
         self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)
         plt.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)
         plt.close("all")
-- 
2.43.0


From 0fde6dd7f51ca61577a5a9aa6e29ed9981f34bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 16/19] fix: write the log file completely at the end of the
 run

---
 src/trusspy/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 590899f..fb1890d 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -206,6 +206,7 @@ Dutzler Andreas, Graz University of Technology, 2023
         finally:
             # give the output stream back, even if the job fails
             if self.logfile:
+                sys.stdout.flush()
                 sys.stdout = self.stdout
 
     def _run(self):
-- 
2.43.0


From e3baeb4c3c0aae6e0be485e04cf1686c7e16e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:28 +0000
Subject: [PATCH 17/19] fix: accept arrays of element labels in assignments

---
 src/trusspy/handlers/handler_element.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 6bcf9a5..8480ffd 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -28,7 +28,7 @@ class ElementHandler:
         pass
 
     def assign_material(self, labels, mprop, mtype=None):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
 
         # reshape (extend) material properties
@@ -50,25 +50,25 @@ class ElementHandler:
                 self.mat_type[np.where(self.labels == label)] = [mtype]
 
     def assign_geometry(self, labels, gprop):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_geometries(self, labels, gprops):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label, gprop in zip(labels, gprops):
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_etype(self, labels, elem_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.elem_type[np.where(self.labels == label)] = elem_type
 
     def assign_mtype(self, labels, mat_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.mat_type[np.where(self.labels == label)] = mat_type
-- 
2.43.0


From eadc290343d063a5388a187593c900e89783b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 18/19] fix: accept arrays of properties for an element

---
 src/trusspy/core/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/core/element.py b/src/trusspy/core/element.py
index 37f144b..d406c1a 100644
--- a/src/trusspy/core/element.py
+++ b/src/trusspy/core/element.py
@@ -68,12 +68,12 @@ class Element:
         self.elem_type = elem_type
         self.mat_type = mat_type
 
-        if material_properties != [np.nan] and mprop is not None:
+        if mprop is not None and list(material_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Material Properties. Use either "material_properties" or "mprop", not both.'
             )
 
-        if geometric_properties != [np.nan] and gprop is not None:
+        if gprop is not None and list(geometric_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Geometric Properties. Use either "geometric_properties" or "gprop", not both.'
             )
-- 
2.43.0


From e519170087eb7d28dd7c2fd57f99a63bab5304f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:17 +0000
Subject: [PATCH 19/19] fix: accept an array of color bar limits

---
 src/trusspy/tools/plot_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index e53a189..228bb2b 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -59,7 +59,7 @@ def p_model(
         title = f"INCREMENT: {inc}"
 
     if contour == "stretch":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 1 - max(abs(self.Results.R[inc].stretch[:, 0] - 1)),
                 1 + max(abs(self.Results.R[inc].stretch[:, 0] - 1)),
@@ -68,7 +68,7 @@ def p_model(
             contour_lim = cbar_limits
         con = contour, self.Results.R[inc].stretch[:, 0], contour_lim
     if contour == "force":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 -max(abs(self.Results.R[inc].element_force[:, 0])),
                 max(abs(self.Results.R[inc].element_force[:, 0])),
@@ -77,7 +77,7 @@ def p_model(
             contour_lim = cbar_limits
         con = contour, self.Results.R[inc].element_force[:, 0], contour_lim
     if contour == "stress":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 -max(abs(self.Results.R[inc].element_stress[:, 0])),
                 max(abs(self.Results.R[inc].element_stress[:, 0])),
-- 
2.43.0

