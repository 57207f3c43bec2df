From 4847d899ba6afd65ab2dd37b86e1f076da18422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 01/14] fix: boundary penalisation with a zone of width one

The slice of the inner edge at the far end was -1:0, which is empty, so any
call with width=1 raised a broadcasting error.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..f74f2eb 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..cdc2c10 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width : (-width + 1) or None, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 00e28d9e7485b0a870e75e6262ae88545187832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 02/14] fix: Laplacian filter of order zero must not use the
 flux buffer

Without any filter pass the kernels subtracted whatever the caller's flux
buffer held from the field.
---
 .../stencil_ops_3d/laplacian_filter_3d.py              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
index afa83d0..738f503 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
@@ -175,8 +175,16 @@ def gen_laplacian_filter_kernel_3d(
             field_2_prefac=-1.0,
         )
 
+    def scalar_field_no_filter_kernel_3d(scalar_field):
+        """
+        Filter of order zero, leaves the scalar field as it is.
+        """
+        pass
+
     scalar_field_filter_kernel_3d = None
-    if filter_type == "multiplicative":
+    if filter_order == 0:
+        scalar_field_filter_kernel_3d = scalar_field_no_filter_kernel_3d
+    elif filter_type == "multiplicative":
         scalar_field_filter_kernel_3d = scalar_field_multiplicative_filter_kernel_3d
     elif filter_type == "convolution":
         scalar_field_filter_kernel_3d = scalar_field_convolution_filter_kernel_3d
-- 
2.43.0


From e02a772f4a1dd763affb0633b8cf552247652ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 03/14] fix: complex product kernels with a fixed grid size

Real and imaginary parts of a complex array are strided, so kernels generated
for fixed size (contiguous) fields rejected every call.
---
 .../stencil_ops_2d/elementwise_ops_2d.py              |  9 +++++----
 .../stencil_ops_3d/elementwise_ops_3d.py              | 11 +++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
index 6238bf2..f57c8cb 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
@@ -130,10 +130,9 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
     """2D elementwise complex number product kernel generator."""
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
-    # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-    )
+    # the real and imaginary parts of a complex array are strided views, hence
+    # not contiguous fields of fixed size, so the size is checked at the call
+    grid_info = "2D"
 
     @ps.kernel
     def _elementwise_complex_product_stencil_2d():
@@ -158,6 +157,8 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
 
     def elementwise_complex_product_pyst_kernel_2d(product_field, field_1, field_2):
         """2D Elementwise complex number product."""
+        if fixed_grid_size and product_field.shape != tuple(fixed_grid_size):
+            raise ValueError(f"Wrong shape, expected {fixed_grid_size}")
         # complex numbers had compilation issues in pystencils :/
         _elementwise_complex_product_pyst_kernel_2d(
             product_field_real=product_field.real,
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
index cd8aa41..c449157 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
@@ -140,12 +140,9 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
     """3D elementwise complex number product kernel generator."""
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
-    # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
-        if fixed_grid_size
-        else "3D"
-    )
+    # the real and imaginary parts of a complex array are strided views, hence
+    # not contiguous fields of fixed size, so the size is checked at the call
+    grid_info = "3D"
 
     @ps.kernel
     def _elementwise_complex_product_stencil_3d():
@@ -170,6 +167,8 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
 
     def elementwise_complex_product_pyst_kernel_3d(product_field, field_1, field_2):
         """3D Elementwise complex number product."""
+        if fixed_grid_size and product_field.shape != tuple(fixed_grid_size):
+            raise ValueError(f"Wrong shape, expected {fixed_grid_size}")
         # complex numbers had compilation issues in pystencils :/
         _elementwise_complex_product_pyst_kernel_3d(
             product_field_real=product_field.real,
-- 
2.43.0


From fc07e4503a27e36a6d201785a48bc956ddbc9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 04/14] fix: reject an invalid real type in the 2D advection
 flux generator

Like all other generators; any type other than np.float32 was silently
compiled as double precision.
---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..bf970cf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,10 +11,8 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
-    kernel_config = ps.CreateKernelConfig(
-        data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
-    )
+    pyst_dtype = get_pyst_dtype(real_t)
+    kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
     grid_info = (
         f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-- 
2.43.0


From 28fcbc9e18fffb9dd5d9b2b1caa6c4415ce7b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 05/14] fix: Lagrangian fields of the same name on different
 grids in IO

Fields were registered by name only, so the second grid's field replaced the
first one's in saved files and loads.
---
 sopht/utils/IO.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..d0a5be3 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -157,18 +157,19 @@ class IO:
         # grid with grid name `lagrangian_grid_name`
         self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
         for field_name in fields_for_io:
-            # Add each field into local dictionary
+            # Add each field into local dictionary, field names are local to the grid
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            field_key = (lagrangian_grid_name, field_name)
+            self.lagrangian_fields[field_key] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape[0] == lagrangian_grid.shape[1]:
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[field_key] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[field_key] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -282,8 +283,9 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field_key = (lagrangian_grid_name, field_name)
+                    field = self.lagrangian_fields[field_key]
+                    field_type = self.lagrangian_fields_type[field_key]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +386,8 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field_key = (lagrangian_grid_name, field_name)
+                        field_type = self.lagrangian_fields_type[field_key]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,7 +396,7 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
+                            self.lagrangian_fields[field_key][...] = f["Lagrangian"][
                                 lagrangian_grid_name
                             ][field_type][field_name][...]
                         elif field_type == "Vector":
@@ -404,7 +407,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            self.lagrangian_fields[field_key][...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -561,7 +564,8 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_key = (lagrangian_grid_name, field_name)
+                field_type = self.lagrangian_fields_type[field_key]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From b50f7f7199d64d053b7be8dda5beea9118da78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 06/14] fix: keep earlier fields when adding to a Lagrangian
 grid again

A second call for the same grid name silently dropped the fields of the first
call from all later saves and loads.
---
 sopht/utils/IO.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index d0a5be3..bdd261a 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -155,15 +155,20 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        # (keeping the ones added to this grid by earlier calls)
+        self.lagrangian_fields_with_grid_name.setdefault(lagrangian_grid_name, [])
         for field_name in fields_for_io:
             # Add each field into local dictionary, field names are local to the grid
             field = fields_for_io[field_name]
             field_key = (lagrangian_grid_name, field_name)
             self.lagrangian_fields[field_key] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
+            if (
                 field_name
-            )
+                not in self.lagrangian_fields_with_grid_name[lagrangian_grid_name]
+            ):
+                self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
+                    field_name
+                )
 
             # Assign field types
             if field.shape[0] == lagrangian_grid.shape[1]:
-- 
2.43.0


From c5032022e2af6f39840ea4cd1e9bccb08caebb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 07/14] fix: classify Lagrangian fields by their full shape

With as many nodes as dimensions a vector field was taken for a scalar one, and
arrays of any trailing shape were accepted.
---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index bdd261a..c9ae022 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -171,7 +171,7 @@ class IO:
                 )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == (lagrangian_grid.shape[1],):
                 self.lagrangian_fields_type[field_key] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_key] = "Vector"
-- 
2.43.0


From c91ebddeee4e493aa352da4d178a28087bd6a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 08/14] fix: load and describe Lagrangian grids without fields

When none of the grids had a field, load skipped (and never checked) the grids
and save wrote no XDMF file for them.
---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index c9ae022..6facdae 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -305,7 +305,7 @@ class IO:
         # Generate xdmf files for every grid
         if self.eulerian_fields:
             self.generate_xdmf_eulerian(h5_file_name=h5_file_name, time=time)
-        if self.lagrangian_fields:
+        if self.lagrangian_grids:
             self.generate_xdmf_lagrangian(h5_file_name=h5_file_name, time=time)
 
     def load(self, h5_file_name):  # noqa: C901
@@ -372,7 +372,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From 520efa68fdbe0f00a8d0844a54ddfb4f09c94c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 09/14] fix: name XDMF files after the suffix of the hdf5 file
 only

Without a .h5 suffix the XDMF description overwrote the saved hdf5 file, and a
.h5 elsewhere in the path changed the directory.
---
 sopht/utils/IO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 6facdae..bf1262c 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -427,6 +427,12 @@ class IO:
 
         return time
 
+    @staticmethod
+    def _xdmf_file_name(h5_file_name, grid_name):
+        """Name of the XDMF file of a grid, next to the hdf5 file."""
+        base_name = h5_file_name[:-3] if h5_file_name.endswith(".h5") else h5_file_name
+        return f"{base_name}_{grid_name}.xmf"
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -520,7 +526,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(self._xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -556,7 +562,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = self._xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From a45b839c32f03bee3a746915d9190aa418cb3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 10/14] fix: XDMF element sizes in bytes and three entries of
 2D origin and spacing

The descriptions gave the number of printed digits (8 or 16) as the element
size of 4 or 8 byte data, and two as the length of three printed values.
---
 sopht/utils/IO.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index bf1262c..7901608 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -34,7 +34,9 @@ class IO:
         self.dim = dim
         assert self.dim == 2 or self.dim == 3, "Invalid dimension (only 2D and 3D)"
         self.real_dtype = real_dtype
+        # number of digits in, and size (in bytes) of reals described by XDMF files
         self.precision = 8 if real_dtype is np.float32 else 16
+        self.real_size = np.dtype(real_dtype).itemsize
 
         # Initialize dictionaries for fields for IO and their
         # corresponding field_type ('Scalar' or 'Vector') Eulerian grid
@@ -478,7 +480,7 @@ class IO:
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}"
-                    NumberType="Float" Precision="{self.precision}" Format="HDF">
+                    NumberType="Float" Precision="{self.real_size}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}
                     </DataItem>
                 </Attribute>
@@ -490,7 +492,7 @@ class IO:
                     entry += f"""<Attribute Name="{field_name}_{idx_dim}"
                     Active="1" AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}" NumberType="Float"
-                    Precision="{self.precision}" Format="HDF">
+                    Precision="{self.real_size}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}_{idx_dim}
                     </DataItem>
                 </Attribute>
@@ -511,12 +513,12 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                <DataItem Name="Origin" Dimensions="3"
+                NumberType="Float" Precision="{self.real_size}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                <DataItem Name="Spacing" Dimensions="3"
+                NumberType="Float" Precision="{self.real_size}" Format="XML">
                     {dx_string}
                 </DataItem>
             </Geometry>
@@ -553,7 +555,7 @@ class IO:
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
-                Precision="{self.precision}" Format="HDF">
+                Precision="{self.real_size}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}
                 </DataItem>
             </Attribute>
@@ -596,9 +598,12 @@ class IO:
                 )
 
             if lagrangian_grid_name in self.lagrangian_grid_connection:
+                connection_size = self.lagrangian_grid_connection[
+                    lagrangian_grid_name
+                ].dtype.itemsize
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
-                {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
+                {lagrangian_grid_size[0]}" Format="HDF" Precision="{connection_size}">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
@@ -615,7 +620,7 @@ class IO:
             {topology}
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
-                NumberType="Float" Precision="{self.precision}" Format="HDF">
+                NumberType="Float" Precision="{self.real_size}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
-- 
2.43.0


From bf0de8983f8cb81e6b01ca6d8fe185ba7ecdefdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 11/14] fix: refuse to load a Lagrangian grid of another size

A file holding a single node was broadcast to all nodes of the registered grid
and its fields without any error.
---
 sopht/utils/IO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 7901608..2f4e7e8 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -380,6 +380,10 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
+                    assert (
+                        f["Lagrangian"][lagrangian_grid_name]["Grid"].shape
+                        == self.lagrangian_grids[lagrangian_grid_name].shape[::-1]
+                    ), f"Grid '{lagrangian_grid_name}' has another size in loaded file!"
                     self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
-- 
2.43.0


From e5c26797acf405cc53f7bdf20d8f2a459f049a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 12/14] fix: scipy reference transform for odd grid sizes

The inverse assumed an even last axis and failed to assign its result.
---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..1f8ea19 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..a18e24a 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
-- 
2.43.0


From 07e72b8ce26a9d9dcee6415436f5637d8b69bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 13/14] fix: boundary penalisation refuses wrong arrays before
 writing to them

A call with a field (or coordinates) of another precision or shape raised an
error, but only after the boundary zone of the field had been overwritten.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py           | 7 +++++++
 .../stencil_ops_3d/penalise_field_boundary_3d.py           | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index f74f2eb..8605087 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -128,6 +128,13 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             in the given width in X and Y direction
             field: field to be penalised
             """
+            # the broadcasting parts below write before any kernel can refuse
+            expected_shape = tuple(fixed_grid_size) if fixed_grid_size else field.shape
+            for array in (field, x_grid_field, y_grid_field):
+                if array.dtype != real_t or array.shape != expected_shape:
+                    raise ValueError(
+                        f"Wrong data type or shape, expected {real_t}, {expected_shape}"
+                    )
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index cdc2c10..8557513 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -185,6 +185,13 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             in the given width in X, Y and Z direction
             field: field to be penalised
             """
+            # the broadcasting parts below write before any kernel can refuse
+            expected_shape = tuple(fixed_grid_size) if fixed_grid_size else field.shape
+            for array in (field, x_grid_field, y_grid_field, z_grid_field):
+                if array.dtype != real_t or array.shape != expected_shape:
+                    raise ValueError(
+                        f"Wrong data type or shape, expected {real_t}, {expected_shape}"
+                    )
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-- 
2.43.0


From df2094f18b921367d178c900c475c902bc60f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 14/14] fix: boundary penalisation of zero width refuses an
 invalid real type

The bypass for width 0 was taken before the real type was looked at.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py                | 2 +-
 .../stencil_ops_3d/penalise_field_boundary_3d.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index 8605087..e5c8d06 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -20,6 +20,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
     # TODO expand docs
     """2D penalise field boundary kernel generator."""
     assert width >= 0 and isinstance(width, int), "invalid zone width"
+    pyst_dtype = get_pyst_dtype(real_t)
 
     if width == 0:
         # bypass option to prevent penalisation, done this way since by
@@ -28,7 +29,6 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             pass
 
     else:
-        pyst_dtype = get_pyst_dtype(real_t)
         grid_info = (
             f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
         )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index 8557513..eb1ff13 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -23,6 +23,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
     """3D penalise field boundary kernel generator."""
     assert width >= 0 and isinstance(width, int), "invalid zone width"
     assert field_type == "scalar" or field_type == "vector", "Invalid field type"
+    pyst_dtype = get_pyst_dtype(real_t)
     if width == 0:
         penalise_field_boundary_pyst_kernel_3d = None
         # bypass option to prevent penalisation, done this way since by
@@ -40,7 +41,6 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
         return penalise_field_boundary_pyst_kernel_3d
 
     else:
-        pyst_dtype = get_pyst_dtype(real_t)
         grid_info = (
             f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
             if fixed_grid_size
-- 
2.43.0

