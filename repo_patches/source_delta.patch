From c95c97b10e315a759d31e64887dda2cb2e9a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 01/11] fix: accept complex arrays in fixed-size complex
 product kernels

---
 .../stencil_ops_2d/elementwise_ops_2d.py      | 24 ++++++++++++-----
 .../stencil_ops_3d/elementwise_ops_3d.py      | 26 ++++++++++++-------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
index 6238bf2..cd48510 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 2D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -131,17 +133,25 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-    )
+
+    def gen_part_fields(names):
+        """Generate fields for the real or imaginary parts of complex arrays."""
+        if not fixed_grid_size:
+            return ps.fields(f"{names} : {pyst_dtype}[2D]")
+        # the parts of a complex array are strided (non-contiguous) views of it
+        complex_dtype = np.result_type(real_t, np.complex64)
+        part = np.empty(fixed_grid_size, dtype=complex_dtype).real
+        return [
+            ps.Field.create_from_numpy_array(name, part) for name in names.split(", ")
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_2d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = gen_part_fields(
+            "product_field_real, field_1_real, field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = gen_part_fields(
+            "product_field_imag, field_1_imag, field_2_imag"
         )
         product_field_real[0, 0] @= (
             field_1_real[0, 0] * field_2_real[0, 0]
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
index cd8aa41..01e51bf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 3D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -141,19 +143,25 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
-        if fixed_grid_size
-        else "3D"
-    )
+
+    def gen_part_fields(names):
+        """Generate fields for the real or imaginary parts of complex arrays."""
+        if not fixed_grid_size:
+            return ps.fields(f"{names} : {pyst_dtype}[3D]")
+        # the parts of a complex array are strided (non-contiguous) views of it
+        complex_dtype = np.result_type(real_t, np.complex64)
+        part = np.empty(fixed_grid_size, dtype=complex_dtype).real
+        return [
+            ps.Field.create_from_numpy_array(name, part) for name in names.split(", ")
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_3d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = gen_part_fields(
+            "product_field_real, field_1_real, field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = gen_part_fields(
+            "product_field_imag, field_1_imag, field_2_imag"
         )
         product_field_real[0, 0, 0] @= (
             field_1_real[0, 0, 0] * field_2_real[0, 0, 0]
-- 
2.43.0


From 5201c9fc5e25aff1d089a7d4e73620ba51d57d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 02/11] fix: penalise field boundary with a one-cell zone

---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..f74f2eb 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..cdc2c10 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width : (-width + 1) or None, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 2b6926e63349269c2aa4a13d8b4de1ddf11dfd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 03/11] fix: reference scipy FFT round trip for odd grid sizes
 along x

---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..1f8ea19 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..a18e24a 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
-- 
2.43.0


From 6f596492019a8ae2e47eeaecb9596dac09d84544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 04/11] fix: IO accepts only (N,) arrays as scalar Lagrangian
 fields

---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..9405db8 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -165,7 +165,7 @@ class IO:
             )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == (lagrangian_grid.shape[1],):
                 self.lagrangian_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_name] = "Vector"
-- 
2.43.0


From 3e74cc7bae4da8e6dd999b353fc574220d06c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 05/11] fix: IO keeps equally named fields of different
 Lagrangian grids apart

---
 sopht/utils/IO.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 9405db8..710347e 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -43,6 +43,7 @@ class IO:
         self.eulerian_fields_type = {}
 
         # Lagrangian grid
+        # fields and types are stored per (grid name, field name)
         self.lagrangian_fields = {}
         self.lagrangian_fields_type = {}
         self.lagrangian_grids = {}
@@ -159,16 +160,20 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            self.lagrangian_fields[lagrangian_grid_name, field_name] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -282,8 +287,10 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                    field_type = self.lagrangian_fields_type[
+                        lagrangian_grid_name, field_name
+                    ]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +391,12 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field = self.lagrangian_fields[
+                            lagrangian_grid_name, field_name
+                        ]
+                        field_type = self.lagrangian_fields_type[
+                            lagrangian_grid_name, field_name
+                        ]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,9 +405,9 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
-                                lagrangian_grid_name
-                            ][field_type][field_name][...]
+                            field[...] = f["Lagrangian"][lagrangian_grid_name][
+                                field_type
+                            ][field_name][...]
                         elif field_type == "Vector":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -404,7 +416,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            field[...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -561,7 +573,9 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_type = self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From 29ede4abc501557a44bd315282ad7a175d0c6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 06/11] fix: IO default Lagrangian grid names do not reuse a
 registered name

---
 sopht/utils/IO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 710347e..497a132 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -145,6 +145,10 @@ class IO:
 
         if lagrangian_grid_name is None:
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
+            # skip default names already taken by named grids
+            while lagrangian_grid_name in self.lagrangian_grids:
+                self.lagrangian_grid_count += 1
+                lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
 
         if lagrangian_grid_connect:
-- 
2.43.0


From d4fd31df59cad52f64df27082f8664b9a21ce51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 07/11] fix: IO loads and describes Lagrangian grids which
 carry no field

---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 497a132..a08a48c 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -309,7 +309,7 @@ class IO:
         # Generate xdmf files for every grid
         if self.eulerian_fields:
             self.generate_xdmf_eulerian(h5_file_name=h5_file_name, time=time)
-        if self.lagrangian_fields:
+        if self.lagrangian_grids:
             self.generate_xdmf_lagrangian(h5_file_name=h5_file_name, time=time)
 
     def load(self, h5_file_name):  # noqa: C901
@@ -376,7 +376,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From 2ae19dc5cf71fdc3e0651fc24e322cc9dddad242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 08/11] fix: IO refuses to load a Lagrangian grid with another
 number of points

---
 sopht/utils/IO.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index a08a48c..3e147bb 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -382,9 +382,13 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
-                        f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
-                    )
+                    lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
+                    loaded_grid = f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
+                    # assignment would broadcast a single loaded point
+                    assert (
+                        loaded_grid.shape == lagrangian_grid.shape[::-1]
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    lagrangian_grid[...] = np.transpose(loaded_grid)
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From 2ac6092e438518c5dac8208febda1dbb7b36f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 09/11] fix: XDMF files of data files without the .h5 extension

---
 sopht/utils/IO.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 3e147bb..c46d8bc 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,9 +1,19 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
 
 
+def _get_xdmf_file_name(h5_file_name, suffix):
+    """Get name of the XDMF file describing h5_file_name, never h5_file_name itself."""
+    base_name, extension = os.path.splitext(h5_file_name)
+    if extension != ".h5":
+        base_name = h5_file_name
+    return f"{base_name}_{suffix}.xmf"
+
+
 class IO:
     r"""IO class for field save and load.
 
@@ -532,7 +542,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(_get_xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -568,7 +578,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = _get_xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 274cd754e7eb5346340882c91c5ad9f84cffacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 10/11] fix: XDMF declares real byte sizes and all origin and
 spacing values

---
 sopht/utils/IO.py | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index c46d8bc..df93820 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -44,7 +44,8 @@ class IO:
         self.dim = dim
         assert self.dim == 2 or self.dim == 3, "Invalid dimension (only 2D and 3D)"
         self.real_dtype = real_dtype
-        self.precision = 8 if real_dtype is np.float32 else 16
+        # number of bytes per real value, as understood by XDMF
+        self.precision = np.dtype(real_dtype).itemsize
 
         # Initialize dictionaries for fields for IO and their
         # corresponding field_type ('Scalar' or 'Vector') Eulerian grid
@@ -479,22 +480,16 @@ class IO:
         )
         dx = self.eulerian_dx if self.dim == 3 else np.insert(self.eulerian_dx, 0, 0.0)
 
-        grid_size_string = np.array2string(
-            grid_size, precision=self.precision, separator="    "
-        )[1:-1]
-        origin_string = np.array2string(
-            origin, precision=self.precision, separator="    "
-        )[1:-1]
-        dx_string = np.array2string(dx, precision=self.precision, separator="    ")[
-            1:-1
-        ]
-
-        def generate_field_entry(file_name, field_name, field_type):
+        grid_size_string = np.array2string(grid_size, separator="    ")[1:-1]
+        origin_string = "    ".join(str(value) for value in origin)
+        dx_string = "    ".join(str(value) for value in dx)
+
+        def generate_field_entry(file_name, field_name, field_type, precision):
             if field_type == "Scalar":
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}"
-                    NumberType="Float" Precision="{self.precision}" Format="HDF">
+                    NumberType="Float" Precision="{precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}
                     </DataItem>
                 </Attribute>
@@ -506,7 +501,7 @@ class IO:
                     entry += f"""<Attribute Name="{field_name}_{idx_dim}"
                     Active="1" AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}" NumberType="Float"
-                    Precision="{self.precision}" Format="HDF">
+                    Precision="{precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}_{idx_dim}
                     </DataItem>
                 </Attribute>
@@ -517,7 +512,12 @@ class IO:
         field_entries = ""
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
-            field_entries += generate_field_entry(h5_file_name, field_name, field_type)
+            field_entries += generate_field_entry(
+                h5_file_name,
+                field_name,
+                field_type,
+                precision=self.eulerian_fields[field_name].dtype.itemsize,
+            )
 
         xdmffile = f"""<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -527,11 +527,11 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
+                <DataItem Name="Origin" Dimensions="{len(origin)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
+                <DataItem Name="Spacing" Dimensions="{len(dx)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {dx_string}
                 </DataItem>
@@ -565,11 +565,12 @@ class IO:
             field_type,
             field_grid_size,
             lagrangian_grid_name,
+            precision,
         ):
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
-                Precision="{self.precision}" Format="HDF">
+                Precision="{precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}
                 </DataItem>
             </Attribute>
@@ -584,7 +585,6 @@ class IO:
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
             lagrangian_grid_size_string = np.array2string(
                 lagrangian_grid_size,
-                precision=self.precision,
                 separator="    ",
             )[1:-1]
 
@@ -600,7 +600,6 @@ class IO:
                 elif field_type == "Vector":
                     field_grid_size_string = np.array2string(
                         lagrangian_grid_size,
-                        precision=self.precision,
                         separator="    ",
                     )[1:-1]
 
@@ -610,12 +609,16 @@ class IO:
                     field_type,
                     field_grid_size_string,
                     lagrangian_grid_name=lagrangian_grid_name,
+                    precision=self.lagrangian_fields[
+                        lagrangian_grid_name, field_name
+                    ].dtype.itemsize,
                 )
 
             if lagrangian_grid_name in self.lagrangian_grid_connection:
+                connection = self.lagrangian_grid_connection[lagrangian_grid_name]
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
-                {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
+                {lagrangian_grid_size[0]}" Format="HDF" Precision="{connection.itemsize}">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
@@ -632,7 +635,7 @@ class IO:
             {topology}
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
-                NumberType="Float" Precision="{self.precision}" Format="HDF">
+                NumberType="Float" Precision="{lagrangian_grid.itemsize}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
-- 
2.43.0


From dc98126a45d336688c21f02a9c164575b3a4ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 11/11] fix: 2D advection flux generator refuses unsupported
 precisions

---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py     | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..7b428a9 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,7 +11,7 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
+    pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = ps.CreateKernelConfig(
         data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
     )
-- 
2.43.0

