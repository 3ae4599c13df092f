From fe30cc00dcc97b88c2086231efd2e854ec6d36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 01/15] fix: check the y index bound against ny in
 get_idx_linear

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 76d0df49054bcd125f5a1491b22e8114642cb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 02/15] fix: do not modify the spectrum given to get_ifft

---
 pypeec/utils/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..fd05a7a 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,6 +51,9 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
+    # cast to array (without modifying the input)
+    v_freq = np.array(v_freq, dtype=np.complex128)
+
     # scale the DC coefficient
     v_freq[0] *= 2.0
 
-- 
2.43.0


From 4c84316ba7d61f2044c1c084864f5d949305bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/15] fix: pair the source voltages and currents of the same
 voxels

---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..e0ffdce 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # sort by voxel indices (same order for the voltages and currents)
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From b256bff7a7c4d9a050acfdc9895622a9490161f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 04/15] fix: raise the error for invalid voxel sizes in the
 shape and STL meshers

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
-- 
2.43.0


From 5e46ab338635d7d21db91d7b24bfceb13c9e671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 05/15] fix: do not exceed the maximum number of segregated
 iterations

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..63f7965 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From 5ed01575e7100ba7496493a74288747522641290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 06/15] fix: reject voxels shared between several materials or
 sources

---
 pypeec/lib_solver/problem_geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index e0ffdce..a674ebd 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -32,7 +32,7 @@ def _get_domain_indices(domain_list, domain_def):
     return idx_all
 
 
-def _check_indices(idx_vc, idx_src_c, idx_src_v):
+def _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v):
     """
     Check that the material and source indices are valid.
     The indices should be unique and compatible with the voxel size.
@@ -47,6 +47,15 @@ def _check_indices(idx_vc, idx_src_c, idx_src_v):
     if (len(idx_src_c) == 0) and (len(idx_src_v) == 0):
         raise RuntimeError("source indices cannot be empty")
 
+    # check that the indices are unique
+    idx_src = np.concatenate((idx_src_c, idx_src_v))
+    if not (len(np.unique(idx_vc)) == len(idx_vc)):
+        raise RuntimeError("electric indices should be unique")
+    if not (len(np.unique(idx_vm)) == len(idx_vm)):
+        raise RuntimeError("magnetic indices should be unique")
+    if not (len(np.unique(idx_src)) == len(idx_src)):
+        raise RuntimeError("source indices should be unique")
+
     # check that the terminal indices are electric indices
     if not np.all(np.in1d(idx_src_c, idx_vc)):
         raise RuntimeError("current source indices should overlap with electric indices")
@@ -77,7 +86,7 @@ def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
     """
 
     # check voxel indices
-    _check_indices(idx_vc, idx_src_c, idx_src_v)
+    _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v)
     _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def)
 
     # detect the existence of magnetic domains
-- 
2.43.0


From fe4c6e3afe51f8c806ede241d736e8a7bea193e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 07/15] fix: attribute the losses to the material of the
 matching type for overlapping materials

---
 pypeec/lib_solver/problem_geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index a674ebd..c0c7d12 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -185,10 +185,15 @@ def get_material_pos(material_idx, idx_vc, idx_vm):
     for tag, material_idx_tmp in material_idx.items():
         # extract the data
         idx = material_idx_tmp["idx"]
+        material_type = material_idx_tmp["material_type"]
+
+        # get the indices belonging to the material (electric and magnetic materials can overlap)
+        idx_electric = idx if material_type in ["electric", "electromagnetic"] else []
+        idx_magnetic = idx if material_type in ["magnetic", "electromagnetic"] else []
 
         # get the position of the material domain
-        idx_vc_tmp = np.in1d(idx_vc, idx)
-        idx_vm_tmp = np.in1d(idx_vm, idx)
+        idx_vc_tmp = np.in1d(idx_vc, idx_electric)
+        idx_vm_tmp = np.in1d(idx_vm, idx_magnetic)
 
         # find indices
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
-- 
2.43.0


From 9874e7c2d7a240ffbcdd10b88da8cf30a28c2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 08/15] fix: segregated coupling with the gcrot solver and
 without magnetic materials

---
 pypeec/lib_matrix/matrix_iterative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 1383a29..dd67c72 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -22,6 +22,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     n_inner = iter_options["n_inner"]
     n_outer = iter_options["n_outer"]
 
+    # an empty system is already solved (not supported by all the solvers)
+    if len(rhs) == 0:
+        return True, rhs
+
     # call the solver
     if solver == "gmres":
         (sol, flag) = sla.gmres(
-- 
2.43.0


From 5e80da74aeb9fe846b6f06dde15361ed39cd23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 09/15] fix: limit the warning-to-error filters to the matrix
 factorization

The filters were global and turned harmless warnings of the iterative
solvers (exact convergence of gcrotmk) into exceptions.
---
 pypeec/lib_matrix/matrix_factorization.py | 28 ++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_factorization.py b/pypeec/lib_matrix/matrix_factorization.py
index c0181c6..b48e4ac 100644
--- a/pypeec/lib_matrix/matrix_factorization.py
+++ b/pypeec/lib_matrix/matrix_factorization.py
@@ -144,14 +144,21 @@ def _get_factorize_sub(mat):
 
     # factorize the matrix
     LOGGER.debug("compute factorization")
-    if LIBRARY == "SuperLU":
-        factor = _get_fact_superlu(mat)
-    elif LIBRARY == "PARDISO":
-        factor = _get_fact_pardiso(mat)
-    elif LIBRARY == "PyAMG":
-        factor = _get_fact_pyamg(mat)
-    else:
-        raise ValueError("invalid matrix factorization library")
+    with warnings.catch_warnings():
+        # problematic matrices are triggering errors (only during the factorization)
+        warnings.filterwarnings("error", module="scipy.sparse.linalg")
+        warnings.filterwarnings("error", module="pyamg.aggregation")
+        warnings.filterwarnings("error", module="pydiso.mkl_solver")
+
+        # factorize the matrix
+        if LIBRARY == "SuperLU":
+            factor = _get_fact_superlu(mat)
+        elif LIBRARY == "PARDISO":
+            factor = _get_fact_pardiso(mat)
+        elif LIBRARY == "PyAMG":
+            factor = _get_fact_pyamg(mat)
+        else:
+            raise ValueError("invalid matrix factorization library")
 
     # display the status
     LOGGER.debug("factorization success")
@@ -188,11 +195,6 @@ def set_options(factorization_options):
     global IMPORTLIB
     IMPORTLIB = lib_tmp
 
-    # prevent problematic matrices to trigger warnings
-    warnings.filterwarnings("error", module="scipy.sparse.linalg")
-    warnings.filterwarnings("error", module="pyamg.aggregation")
-    warnings.filterwarnings("error", module="pydiso.mkl_solver")
-
 
 def get_factorize(name, mat):
     """
-- 
2.43.0


From 64d23ecb62a8eb228373084bebbd1392ac1d06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 10/15] fix: enforce the minimum of integer fields in the
 format check

---
 pypeec/lib_check/check_data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..4fabc23 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -52,6 +52,12 @@ def _get_strict_validator():
         else:
             return jsonschema.Draft202012Validator.TYPE_CHECKER.is_type(instance, "array")
 
+    def get_minimum(validator, minimum, instance, _):
+        # the default implementation only considers "number" (integers are a separate type)
+        is_numeric = validator.is_type(instance, "integer") or validator.is_type(instance, "number")
+        if is_numeric and (instance < minimum):
+            yield jsonschema.ValidationError("%r is less than the minimum of %r" % (instance, minimum))
+
     # custom type checker
     type_checker = jsonschema.Draft202012Validator.TYPE_CHECKER
     type_checker = type_checker.redefine("number", get_float)
@@ -61,6 +67,7 @@ def _get_strict_validator():
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0


From 86191942da5275d2144d9c9e04cea2cd723579d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 11/15] fix: reject zero voxel dimensions in the format check

---
 pypeec/data/schema_geometry_png.yaml   | 2 +-
 pypeec/data/schema_geometry_shape.yaml | 6 +++---
 pypeec/data/schema_geometry_stl.yaml   | 2 +-
 pypeec/data/schema_geometry_voxel.yaml | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypeec/data/schema_geometry_png.yaml b/pypeec/data/schema_geometry_png.yaml
index be96c2e..f220b61 100644
--- a/pypeec/data/schema_geometry_png.yaml
+++ b/pypeec/data/schema_geometry_png.yaml
@@ -17,7 +17,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "c":
                 "type": "array"
                 "minItems": 3
diff --git a/pypeec/data/schema_geometry_shape.yaml b/pypeec/data/schema_geometry_shape.yaml
index 70ba11f..5e352c9 100644
--- a/pypeec/data/schema_geometry_shape.yaml
+++ b/pypeec/data/schema_geometry_shape.yaml
@@ -93,13 +93,13 @@
         "properties":
             "dx":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "dy":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "dz":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "cz":
                 "type":
                     - "null"
diff --git a/pypeec/data/schema_geometry_stl.yaml b/pypeec/data/schema_geometry_stl.yaml
index 2404e47..84b93e6 100644
--- a/pypeec/data/schema_geometry_stl.yaml
+++ b/pypeec/data/schema_geometry_stl.yaml
@@ -16,7 +16,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "xyz_min":
                 "type":
                     - "null"
diff --git a/pypeec/data/schema_geometry_voxel.yaml b/pypeec/data/schema_geometry_voxel.yaml
index f8b9be7..ccbc11c 100644
--- a/pypeec/data/schema_geometry_voxel.yaml
+++ b/pypeec/data/schema_geometry_voxel.yaml
@@ -23,7 +23,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "c":
                 "type": "array"
                 "minItems": 3
-- 
2.43.0


From 51db32e63f1749d2ced7c7e531a85f95498a0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 12/15] fix: reject arrays for lumped isotropic material and
 source values

---
 pypeec/lib_solver/problem_value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypeec/lib_solver/problem_value.py b/pypeec/lib_solver/problem_value.py
index 89edda2..d2444f9 100644
--- a/pypeec/lib_solver/problem_value.py
+++ b/pypeec/lib_solver/problem_value.py
@@ -43,6 +43,10 @@ def _get_material_field(val_dict):
         # extract
         val = val_dict[tag]
 
+        # lumped isotropic values should be scalars (no broadcasting)
+        if (var_type == "lumped") and (orientation_type != "anisotropic") and (np.ndim(val) != 0):
+            raise RuntimeError("lumped isotropic material parameters should be scalar values")
+
         # cast
         if var_type == "lumped" and orientation_type is None:
             val = np.full(len(idx), val, dtype=np.float64)
@@ -93,6 +97,10 @@ def _get_source_field(val_dict):
         # extract
         val = val_dict[tag]
 
+        # lumped values should be scalars (no broadcasting)
+        if (var_type == "lumped") and (np.ndim(val) != 0):
+            raise RuntimeError("lumped source parameters should be scalar values")
+
         # cast
         if var_type == "lumped":
             val = np.full(len(idx), val, dtype=np.float64)
-- 
2.43.0


From 5ee2e4f17b546397435f1e537914ae60bd8a604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 13/15] fix: check the type of the clip plane flag in the plot
 options

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From 4d56ce3e2d46eaaeecbe99dd3972f05f07840af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 14/15] fix: detect failures of the gerber conversion tools and
 quote file names

The exit codes of gerbv and mogrify were ignored, such that a failing or
missing tool left a missing or stale image without any error. File names
with spaces were split by the shell. The project file was left behind on
errors.
---
 pypeec/utils/gerber.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 894c75a..0431cf3 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -102,21 +102,23 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
     border = 100*margin
 
     # transform the GERBER files into a PNG file
-    cmd = "gerbv -p %s -o %s -x png --border %d --dpi %d 2>/dev/null" % (
-        filename_gerbv,
-        filename_png,
-        border,
-        resolution,
-    )
-    subprocess.run(cmd, shell=True)
+    cmd = [
+        "gerbv",
+        "-p", filename_gerbv,
+        "-o", filename_png,
+        "-x", "png",
+        "--border", "%d" % border,
+        "--dpi", "%d" % resolution,
+    ]
+    subprocess.run(cmd, check=True, stderr=subprocess.DEVNULL)
 
     # cut the border
-    cmd = "mogrify -trim %s" % filename_png
-    subprocess.run(cmd, shell=True)
+    cmd = ["mogrify", "-trim", filename_png]
+    subprocess.run(cmd, check=True)
 
     # cut the border
-    cmd = "mogrify -sample %.2f%% %s" % (resize, filename_png)
-    subprocess.run(cmd, shell=True)
+    cmd = ["mogrify", "-sample", "%.2f%%" % resize, filename_png]
+    subprocess.run(cmd, check=True)
 
 
 def _get_convert_layer(tag, data_export, data_gerber, data_stack):
@@ -139,14 +141,16 @@ def _get_convert_layer(tag, data_export, data_gerber, data_stack):
     filename_gerbv = os.path.join(folder_png, "%s.gvp" % tag)
     filename_png = os.path.join(folder_png, "%s.png" % tag)
 
-    # get the project file with the GERBER files
-    _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack)
+    try:
+        # get the project file with the GERBER files
+        _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack)
 
-    # convert the project file into a PNG file
-    _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling)
-
-    # remove the project file
-    os.remove(filename_gerbv)
+        # convert the project file into a PNG file
+        _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling)
+    finally:
+        # remove the project file
+        if os.path.exists(filename_gerbv):
+            os.remove(filename_gerbv)
 
 
 def get_convert(data_export, data_gerber, data_stack):
-- 
2.43.0


From 94a275ac1d6d35ee2438aa0d578f4b9c7ef35d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 15/15] fix: shape mesher, drop slivers degenerating on the
 construction grid

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index a276f0c..8d017df 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -213,6 +213,10 @@ def _get_shape_assemble(geometry_shape, tag, simplify, construct):
     obj_sub = sha.unary_union(obj_sub, grid_size=construct)
     obj = sha.difference(obj_add, obj_sub, grid_size=construct)
 
+    # remove the degenerated parts (slivers collapsing on the grid into lines or points)
+    if not isinstance(obj, (sha.Polygon, sha.MultiPolygon)):
+        obj = sha.MultiPolygon([part for part in sha.get_parts(obj) if isinstance(part, sha.Polygon)])
+
     # simplify the shape
     if simplify is not None:
         obj = sha.simplify(obj, simplify, preserve_topology=False)
-- 
2.43.0

