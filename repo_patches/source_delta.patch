From db53f7027af61e461d4deef363525718e0940c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 01/45] fix: calibration kernels no longer shift the caller's
 time_bin_indices in place

---
 africanus/calibration/phase_only/phase_only.py | 18 +++++++++---------
 .../utils/compute_and_corrupt_vis.py           |  6 +++---
 africanus/calibration/utils/correct_vis.py     |  6 +++---
 africanus/calibration/utils/corrupt_vis.py     |  6 +++---
 africanus/calibration/utils/residual_vis.py    |  6 +++---
 5 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..0e1ef39 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -48,8 +48,8 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -92,8 +92,8 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -132,8 +132,8 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..45100dc 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,15 +85,15 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
         vis = np.zeros(vis_shape, dtype=jones.dtype)
         n_chan = model_shape[1]
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..e704be8 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
@@ -87,8 +87,8 @@ def correct_vis(time_bin_indices, time_bin_counts,
         n_chan = jones_shape[2]
         corrected_vis = np.zeros_like(vis, dtype=vis.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..ee91060 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,15 +67,15 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
         vis = np.zeros(vis_shape, dtype=model.dtype)
         n_chan = model_shape[1]
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..5ab3c6f 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,14 +71,14 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_starts = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
         residual = np.zeros(vis_shape, dtype=vis.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_starts[t],
+                             bin_starts[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
-- 
2.43.0


From 666294c63c99750b4ff71a0158ec45fe7210e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 02/45] fix: gauss_newton no longer whitens the caller's vis
 and model in place

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 0e1ef39..f4c19cc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 228804e2d70563dbfb118ca10c390916f26a80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 03/45] fix: declare the chunks and dtypes compute_jhj and
 compute_jhr really produce

---
 africanus/calibration/phase_only/dask.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..c05a82b 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import numpy as np
+
 from africanus.calibration.phase_only.phase_only import COMPUTE_JHJ_DOCS
 from africanus.calibration.phase_only.phase_only import COMPUTE_JHR_DOCS
 from africanus.calibration.utils import check_type
@@ -35,9 +37,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=np.empty(0, jones.dtype).real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +64,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From e70da62ccf4e0be6b4ff702d53b193a31ee3b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 04/45] fix: declare averaged channel chunks of the channel
 columns

---
 africanus/averaging/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..fb87e89 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -314,7 +314,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From 747d94633adc8f572b6d7bd87abcabf255702b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 05/45] fix: base_vis takes part in the output dtype of the
 dask predict_vis

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 8a9296032c3fe460ccc8f3baeec4c3a3bdfb3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:25 +0000
Subject: [PATCH 06/45] fix: uvw_rotate rotates (u, v, w) instead of reading
 past the end of the row

---
 .../policies/baseline_transform_policies.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..83b56db 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,12 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u = uvw[0]
+    v = uvw[1]
+    w = uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 43aa9e4e75faaae0d7ead0cfc8027df53a5fe857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:25 +0000
Subject: [PATCH 07/45] fix: dask degridder degrids each facet about its own
 image centre

---
 africanus/gridding/perleypolyhedron/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..4dd100b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -67,7 +67,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
-- 
2.43.0


From 1b04f29bbdddd346980082296bfa6c5f14d5ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 08/45] fix: perleypolyhedron (de)gridders no longer transform
 the caller's vis and uvw in place

---
 .../gridding/perleypolyhedron/degridder.py    | 12 +++++++-----
 .../gridding/perleypolyhedron/gridder.py      | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..1fec266 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,14 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    # the policy transforms in place: leave the caller's array alone
+    row_uvw = uvw[r, :].copy()
+    btp.policy(row_uvw, ra, dec, ra0, dec0,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
@@ -59,7 +61,7 @@ def degridder_row_kernel(uvw,
                   stokes_conversion_policy,
                   policy_type=convolution_policy)
     ptp.policy(vis[r, :, :],
-               uvw[r, :],
+               row_uvw,
                wavelengths,
                ra0,
                dec0,
diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..e20fa67 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,11 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        # the policies transform in place: leave the caller's arrays alone
+        row_vis = vis[r:r + 1, :, :].copy()
+        row_uvw = uvw[r, :].copy()
+        ptp.policy(row_vis[0, :, :],
+                   row_uvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +92,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(row_uvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+            scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+            scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +105,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                row_vis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From b831f4a84705e62278bb562e399a0aa2586bdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:53 +0000
Subject: [PATCH 09/45] fix: perleypolyhedron dask wrappers use every channel,
 facet and band chunk

---
 africanus/gridding/perleypolyhedron/dask.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 4dd100b..d82a88f 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,14 +41,10 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
-    lambdas = lambdas
-    chanmap = chanmap
     if chanmap.size != lambdas.size:
         raise ValueError(
             "Chanmap and corresponding lambdas must match in shape")
@@ -168,6 +163,8 @@ def degridder(uvw,
             stokes_conversion_policies.ncorr_outpy(
                 policy_type=stokes_conversion_policy)()
         },
+        # every chunk of a contracted dimension takes part
+        concatenate=True,
         dtype=vis_dtype,
         meta=np.empty(
             (0, 0, 0),
@@ -193,7 +190,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -202,10 +198,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -310,6 +302,8 @@ def gridder(uvw,
             "y": npix,
             "x": npix
         },
+        # every chunk of a contracted dimension takes part
+        concatenate=True,
         dtype=grid_dtype,
         meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype))
 
-- 
2.43.0


From 3310c216bd2408d1d3ed404b81e5c189451c8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 10/45] fix: dask averaging of channel columns without
 visibilities, or of row columns only

---
 africanus/averaging/dask.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index fb87e89..82ff57b 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -162,7 +162,10 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    # Nothing to average, the corr dimension may not even be known
+    if chan_meta is None or all(a is None for a in (vis, flag,
+                                                    weight_spectrum,
+                                                    sigma_spectrum)):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
@@ -219,7 +222,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
-- 
2.43.0


From 199af9581087b468dcbbe65f511f25e5100f8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:21 +0000
Subject: [PATCH 11/45] fix: SingletonMixin keeps falsy instances, one instance
 per class, nested construction

---
 africanus/util/code.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/africanus/util/code.py b/africanus/util/code.py
index 3b3d78c..4cc0f4f 100644
--- a/africanus/util/code.py
+++ b/africanus/util/code.py
@@ -2,6 +2,7 @@
 
 
 from functools import wraps
+from threading import RLock
 
 try:
     from dask.utils import SerializableLock as Lock
@@ -10,17 +11,23 @@ except ImportError:
 
 
 class SingletonMixin(object):
-    __singleton_lock = Lock()
+    # Reentrant, as constructing one singleton may require another
+    __singleton_lock = RLock()
     __singleton_instance = None
 
+    @classmethod
+    def __own_instance(cls):
+        # Ignore the instance of a parent class
+        return cls.__dict__.get("_SingletonMixin__singleton_instance")
+
     @classmethod
     def instance(cls):
-        if not cls.__singleton_instance:
+        if cls.__own_instance() is None:
             with cls.__singleton_lock:
-                if not cls.__singleton_instance:
+                if cls.__own_instance() is None:
                     cls.__singleton_instance = cls()
 
-        return cls.__singleton_instance
+        return cls.__own_instance()
 
 
 def format_code(code):
-- 
2.43.0


From 9b97380b81aea132b993cd9e6e4b01f8ad1b6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:20 +0000
Subject: [PATCH 12/45] fix: progress bar timer races, leaked timers, division
 by zero and lost estimates

---
 africanus/util/dask_util.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..1c8aa30 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -98,7 +98,7 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     # If we've completed some new tasks, update our estimate
     # otherwise use previous estimate. This prevents jumps
     # relative to the elapsed time
-    if completed != prev_completed:
+    if completed != prev_completed and time_guess > 0.0:
         estimated = estimated * elapsed / time_guess
     else:
         estimated = prev_estimated
@@ -126,13 +126,14 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     return completed, estimated
 
 
-def timer_func(pb):
+def timer_func(pb, running):
     start = default_timer()
+    prev_completed = 0
+    prev_estimated = 0.0
 
-    while pb.running.is_set():
+    # pb.running may already belong to a later computation
+    while running.is_set():
         elapsed = default_timer() - start
-        prev_completed = 0
-        prev_estimated = 0.0
 
         if elapsed > pb._minimum:
             prev_completed, prev_estimated = update_bar(elapsed,
@@ -193,22 +194,27 @@ class EstimatingProgressBar(Callback):
         self._lock = Lock()
 
     def _start(self, dsk):
-        self.task_start = {}
-        self.task_data = defaultdict(TaskData)
+        task_data = defaultdict(TaskData)
 
         for k, v in dsk.items():
-            self.task_data[key_bin(k)].total += 1
+            task_data[key_bin(k)].total += 1
+
+        with self._lock:
+            self.task_start = {}
+            self.task_data = task_data
 
         self.running = Event()
         self.running.set()
-        self.thread = Thread(target=timer_func, args=(self,))
-        self.daemon = True
+        self.thread = Thread(target=timer_func, args=(self, self.running))
+        self.thread.daemon = True
         self.thread.start()
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From a25054198f7ffcb879818baebca24cd5ac3aa256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:11 +0000
Subject: [PATCH 13/45] fix: cub and trove installs appear in one step, survive
 failing temporary directories and concurrent installers

---
 africanus/util/cub.py   | 27 ++++++++++++++-------------
 africanus/util/trove.py | 25 +++++++++++++------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index 14268f1..664ac91 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -39,8 +39,7 @@ class InstallCubException(Exception):
 def download_cub(archive_file):
     response = urlopen(_cub_url)
 
-    if not os.path.exists(downloads_dir):
-        os.makedirs(downloads_dir)
+    os.makedirs(downloads_dir, exist_ok=True)
 
     with open(archive_file, "wb") as f:
         shutil.copyfileobj(response, f)
@@ -95,33 +94,35 @@ def _install_cub():
                    'is %s and does not match the expected '
                    'hash of %s.') % (
                         _cub_download_filename, _cub_url,
-                        _cub_sha_hash, sha_hash)
+                        sha_hash, _cub_sha_hash)
 
             raise InstallCubException(msg)
 
     # Unzip into include/cub
     with ZipFile(archive, 'r') as zip_file:
-        # Remove any existing install
-        try:
-            shutil.rmtree(_cub_dir, ignore_errors=True)
-        except Exception as e:
-            raise InstallCubException("Removing %s failed\n%s" % (
-                                      _cub_dir, str(e)))
+        tmpdir = None
 
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
+            # Unzip into temporary directory next to the install location
+            # so that the install appears in one step
+            os.makedirs(include_dir, exist_ok=True)
+            tmpdir = tempfile.mkdtemp(dir=include_dir)
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _cub_zip_dir)
 
+            # Move any existing install out of the way
+            if os.path.exists(_cub_dir):
+                os.rename(_cub_dir, pjoin(tmpdir, "previous"))
+
             # Move
-            shutil.move(unzip_path, _cub_dir)
+            os.rename(unzip_path, _cub_dir)
         except Exception as e:
             raise InstallCubException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
         finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
+            if tmpdir is not None:
+                shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA cub archive unzipped into '%s'" % _cub_dir)
 
diff --git a/africanus/util/trove.py b/africanus/util/trove.py
index b88b62e..d8896fe 100644
--- a/africanus/util/trove.py
+++ b/africanus/util/trove.py
@@ -39,8 +39,7 @@ class InstallTroveException(Exception):
 def download_trove(archive_file):
     response = urlopen(_trove_url)
 
-    if not os.path.exists(downloads_dir):
-        os.makedirs(downloads_dir)
+    os.makedirs(downloads_dir, exist_ok=True)
 
     with open(archive_file, "wb") as f:
         shutil.copyfileobj(response, f)
@@ -84,27 +83,29 @@ def _install_trove():
 
     # Unzip into include/trove
     with ZipFile(archive, 'r') as zip_file:
-        # Remove any existing install
-        try:
-            shutil.rmtree(_trove_dir, ignore_errors=True)
-        except Exception as e:
-            raise InstallTroveException("Removing %s failed\n%s" % (
-                                      _trove_dir, str(e)))
+        tmpdir = None
 
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
+            # Unzip into temporary directory next to the install location
+            # so that the install appears in one step
+            os.makedirs(include_dir, exist_ok=True)
+            tmpdir = tempfile.mkdtemp(dir=include_dir)
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _trove_zip_dir)
 
+            # Move any existing install out of the way
+            if os.path.exists(_trove_dir):
+                os.rename(_trove_dir, pjoin(tmpdir, "previous"))
+
             # Move
-            shutil.move(unzip_path, _trove_dir)
+            os.rename(unzip_path, _trove_dir)
         except Exception as e:
             raise InstallTroveException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
         finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
+            if tmpdir is not None:
+                shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA trove archive unzipped into '%s'" % _trove_dir)
 
-- 
2.43.0


From e378feb39109ff87f900ab04497c298a815b19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:00 +0000
Subject: [PATCH 14/45] fix: nvcc probing and compiling on Python 3, without
 leaks, and from several threads

---
 africanus/util/nvcc.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 28f5f47..dc3e452 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -10,14 +10,15 @@ import shutil
 import subprocess
 import sys
 import tempfile
+import threading
 
 from os.path import join as pjoin
 from pkg_resources import resource_filename
 
-import distutils
 from distutils import errors
 from distutils import msvccompiler
 from distutils import unixccompiler
+from distutils.util import split_quoted
 
 from africanus.util.code import format_code
 from africanus.util.requirements import requires_optional
@@ -105,7 +106,7 @@ def get_cuda_path():
 def get_nvcc_path():
     nvcc = os.environ.get('NVCC', None)
     if nvcc:
-        return distutils.split_quoted(nvcc)
+        return split_quoted(nvcc)
 
     cuda_path = get_cuda_path()
     if cuda_path is None:
@@ -165,7 +166,7 @@ def _match_output_lines(output_lines, regexs):
         return None
 
     matches = [None] * len(regexs)
-    for i in range(len(output_lines) - len(regexs)):
+    for i in range(len(output_lines) - len(regexs) + 1):
         for j in range(len(regexs)):
             m = re.match(regexs[j], output_lines[i + j])
             if not m:
@@ -299,7 +300,7 @@ def _get_cuda_info():
             msg = 'Cannot execute a stub file.\nOriginal error: {0}'.format(e)
             raise Exception(msg)
 
-        return ast.literal_eval(out)
+        return ast.literal_eval(out.decode('utf8'))
 
 
 def get_cuda_info():
@@ -444,22 +445,25 @@ def stdchannel_redirected(stdchannel, dest_filename):
             libraries.append('rt')
     """
 
+    oldstdchannel = os.dup(stdchannel.fileno())
+
     try:
-        oldstdchannel = os.dup(stdchannel.fileno())
-        dest_file = open(dest_filename, 'w')
-        os.dup2(dest_file.fileno(), stdchannel.fileno())
+        with open(dest_filename, 'w') as dest_file:
+            os.dup2(dest_file.fileno(), stdchannel.fileno())
 
-        yield
+            yield
     finally:
-        if oldstdchannel is not None:
-            os.dup2(oldstdchannel, stdchannel.fileno())
-        if dest_file is not None:
-            dest_file.close()
+        os.dup2(oldstdchannel, stdchannel.fileno())
+        os.close(oldstdchannel)
+
+
+# The compiler and the standard channels are shared by all threads
+_compile_lock = threading.Lock()
 
 
 @requires_optional("cupy", cupy_import_error)
 def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
-    options = options or []
+    options = list(options or []) + ['-cubin']
 
     if arch is None:
         cuda_info = get_cuda_info()
@@ -470,8 +474,6 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
     settings = get_compiler_setting()
     arch = "--generate-code=arch=compute_{a},code=sm_{a}".format(a=arch)
 
-    options += ['-cubin']
-
     cupy_path = resource_filename("cupy", pjoin("core", "include"))
     settings['include_dirs'].append(cupy_path)
 
@@ -484,8 +486,9 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
         try:
             stderr_file = pjoin(tmpdir, "stderr.txt")
 
-            with stdchannel_redirected(sys.stderr, stderr_file):
+            with _compile_lock, stdchannel_redirected(sys.stderr, stderr_file):
                 objects = cc.compile([tmpfile],
+                                     output_dir=tmpdir,
                                      include_dirs=settings['include_dirs'],
                                      macros=settings['define_macros'],
                                      extra_postargs=options)
@@ -501,8 +504,7 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
                      errs.strip(),
                      str(e).strip()]
 
-            ex = errors.CompileError("\n".join(lines))
-            raise (ex, None, sys.exc_info()[2])
+            raise errors.CompileError("\n".join(lines)) from e
 
         assert len(objects) == 1
 
-- 
2.43.0


From 646f83265fea763adf08d07aa147a2d97fb7af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:20 +0000
Subject: [PATCH 15/45] fix: nifty dask wrappers declare the complex128 dtype
 the gridder produces

---
 africanus/gridding/nifty/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index 675d77b..63df5f4 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -356,13 +356,14 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
             deps = [baselines, indices, corr_vis, corr_weights]
             graph = HighLevelGraph.from_collections(layers.name, layers, deps)
             chunks = corr_vis.chunks
-            grid_stream_red = da.Array(graph, layers.name, chunks, vis.dtype)
+            grid_stream_red = da.Array(graph, layers.name, chunks,
+                                       np.complex128)
 
             layers = FinalGridReduction(layers)
             deps = [grid_stream_red]
             graph = HighLevelGraph.from_collections(layers.name, layers, deps)
             chunks = ((gc.Nu(),), (gc.Nv(),))
-            corr_grid = da.Array(graph, layers.name, chunks, vis.dtype)
+            corr_grid = da.Array(graph, layers.name, chunks, np.complex128)
 
             grids.append(corr_grid)
 
@@ -444,7 +445,7 @@ def model(image, grid_config):
                         image, ("nu", "nv", "corr"),
                         gc, None,
                         adjust_chunks={"nu": nu, "nv": nv},
-                        dtype=image.dtype)
+                        dtype=np.complex128)
 
 
 def _nifty_degrid(grid, baselines, indices, grid_config):
@@ -517,7 +518,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
                            indices, ("row",),
                            grid_config, None,
                            new_axes={"chan": frequencies.shape[0]},
-                           dtype=grid.dtype)
+                           dtype=np.complex128)
 
         vis_chunks.append(vis)
 
-- 
2.43.0


From f038a582441a7397914194f1c6b5e7e7b63f153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:46 +0000
Subject: [PATCH 16/45] fix: an unknown coherency output raises ValueError
 instead of UnboundLocalError

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From a1117da5e87651bd85d54cf2624f313ccea25375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 17/45] fix: every block of the beam frequency interpolation
 loads the frequency map, within its bounds

---
 africanus/rime/cuda/beam_freq_interp.cu.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam_freq_interp.cu.j2 b/africanus/rime/cuda/beam_freq_interp.cu.j2
index 5c72bfb..38c7746 100644
--- a/africanus/rime/cuda/beam_freq_interp.cu.j2
+++ b/africanus/rime/cuda/beam_freq_interp.cu.j2
@@ -18,9 +18,9 @@ extern "C" __global__ void {{kernel_name}}(
         {{beam_freq_type}} beam_freqs[beam_nud_limit];
     } shared;
 
-    // Load in beam frequency map across
-    if(chan < beam_nud_limit)
-        { shared.beam_freqs[threadIdx.x] = beam_freq_map[chan]; }
+    // Load in beam frequency map in each block
+    if(threadIdx.x < nud)
+        { shared.beam_freqs[threadIdx.x] = beam_freq_map[threadIdx.x]; }
 
     __syncthreads();
 
-- 
2.43.0


From 94e1e3f0c6704824a63a7224339fc3abc8cf1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 18/45] fix: first thread loads the lm extents it uses in the
 CUDA beam_cube_dde

---
 africanus/rime/cuda/beam.cu.j2 | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.cu.j2 b/africanus/rime/cuda/beam.cu.j2
index 93fb1fc..919293e 100644
--- a/africanus/rime/cuda/beam.cu.j2
+++ b/africanus/rime/cuda/beam.cu.j2
@@ -92,20 +92,19 @@ extern "C" __global__ void {{kernel_name}}(
 
     // Shared memory loads
 
-    // Use first four threads to load beam extents into shared memory
-    if(threadIdx.x < 4)
-        { shared.lm_ext[threadIdx.x] = beam_lm_ext[threadIdx.x]; }
-
     {{lm_ext_type}} & lower_l = shared.lm_ext[0];
     {{lm_ext_type}} & upper_l = shared.lm_ext[1];
     {{lm_ext_type}} & lower_m = shared.lm_ext[2];
     {{lm_ext_type}} & upper_m = shared.lm_ext[3];
 
-    // Use first thread to precompute l and m scaling factors in shared memory
-    // Because a warp is 32 threads, the lm_ext's
-    // should be loaded at this point
+    // Use first thread to load beam extents and precompute
+    // l and m scaling factors in shared memory. Neighbouring threads
+    // may lie outside the grid or may not have executed yet
     if(threadIdx.z == 0 && threadIdx.y == 0 && threadIdx.x == 0)
     {
+        for(i = 0; i < 4; ++i)
+            { shared.lm_ext[i] = beam_lm_ext[i]; }
+
         shared.lscale = {{beam_freq_type}}(beam_lw - 1) / (upper_l - lower_l);
         shared.mscale = {{beam_freq_type}}(beam_mh - 1) / (upper_m - lower_m);
     }
-- 
2.43.0


From fb0ccafb69d718dd88cfaee4e825d8112844fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 19/45] fix: CUDA predict_vis exchanges registers among all
 active lanes and takes channels from base_vis when it is the only term

---
 africanus/rime/cuda/predict.cu.j2 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index b1f8c62..ab30ed1 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -47,6 +47,8 @@
 {%- set nchan = "die1.shape()[2]" %}
 {%- elif have_coh %}
 {%- set nchan = "source_coh.shape()[2]" %}
+{%- elif have_base_vis %}
+{%- set nchan = "base_vis.shape()[1]" %}
 {%- endif %}
 
 {%- set nrow = "time_index.shape()[0]" %}
@@ -96,7 +98,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + is_odd_corr;
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         T shfl_K;
         shfl_K.x = __shfl_sync(mask, K.x, shfl_idx, WARP_SIZE);
@@ -138,7 +140,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + int(is_odd_corr == 0);
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         // Load in the correlation to multiply.
         T shfl_K;
-- 
2.43.0


From b2b2b53dd135cf481b038a14096195d9f444822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 20/45] fix: absent terms take no part in the output dtype of
 the CUDA predict_vis

---
 africanus/rime/cuda/predict.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.py b/africanus/rime/cuda/predict.py
index 38ff4d4..eeb7b15 100644
--- a/africanus/rime/cuda/predict.py
+++ b/africanus/rime/cuda/predict.py
@@ -63,8 +63,11 @@ def _generate_kernel(time_index, antenna1, antenna2,
     name = "predict_vis"
 
     # Complex output type
-    out_dtype = np.result_type(dde1_jones, source_coh, dde2_jones,
-                               die1_jones, base_vis, die2_jones)
+    # (None would promote to float64)
+    out_dtype = np.result_type(*(a.dtype for a in
+                                 (dde1_jones, source_coh, dde2_jones,
+                                  die1_jones, base_vis, die2_jones)
+                                 if a is not None))
 
     ncorrs = reduce(mul, corrs, 1)
 
-- 
2.43.0


From a015386378f1b8a23d6a949c86251a6af0078e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 21/45] fix: CUDA phase_delay accepts strided lm and uvw

---
 africanus/rime/cuda/phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/rime/cuda/phase.py b/africanus/rime/cuda/phase.py
index 05a74a3..8bafa62 100644
--- a/africanus/rime/cuda/phase.py
+++ b/africanus/rime/cuda/phase.py
@@ -62,6 +62,10 @@ def _generate_kernel(lm, uvw, frequency):
 
 @requires_optional("cupy")
 def phase_delay(lm, uvw, frequency):
+    # The kernel reads lm and uvw coordinates as packed vectors
+    lm = cp.ascontiguousarray(lm)
+    uvw = cp.ascontiguousarray(uvw)
+
     kernel, block, out_dtype = _generate_kernel(lm, uvw, frequency)
     grid = grids((frequency.shape[0], uvw.shape[0], 1), block)
     out = cp.empty(shape=(lm.shape[0], uvw.shape[0], frequency.shape[0]),
-- 
2.43.0


From 99df682cb5a7ec336095b3e62f4c38bb99ef74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 22/45] fix: CUDA beam_cube_dde accepts strided arrays and
 checks the beam's shape on each call

---
 africanus/rime/cuda/beam.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/africanus/rime/cuda/beam.py b/africanus/rime/cuda/beam.py
index 97d9222..619aa46 100644
--- a/africanus/rime/cuda/beam.py
+++ b/africanus/rime/cuda/beam.py
@@ -75,12 +75,6 @@ def _generate_main_kernel(beam, beam_lm_ext, beam_freq_map,
                           antenna_scaling, frequencies,
                           dde_dims, ncorr):
 
-    beam_lw, beam_mh, beam_nud = beam.shape[:3]
-
-    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
-        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
-                         "to linearly interpolate")
-
     # Create template
     render = jinja_env.get_template(str(_MAIN_TEMPLATE_PATH)).render
     name = "beam_cube_dde"
@@ -146,8 +140,14 @@ def beam_cube_dde(beam, beam_lm_ext, beam_freq_map,
                   lm, parangles, pointing_errors,
                   antenna_scaling, frequencies):
 
+    beam_lw, beam_mh, beam_nud = beam.shape[:3]
     corrs = beam.shape[3:]
 
+    # The shape is not part of the generated kernel's key
+    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
+        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
+                         "to linearly interpolate")
+
     if beam.shape[2] >= BEAM_NUD_LIMIT:
         raise ValueError("beam_nud exceeds %d" % BEAM_NUD_LIMIT)
 
@@ -165,6 +165,12 @@ def beam_cube_dde(beam, beam_lm_ext, beam_freq_map,
     else:
         fbeam = beam
 
+    # The kernel addresses these as packed arrays
+    fbeam = cp.ascontiguousarray(fbeam)
+    lm = cp.ascontiguousarray(lm)
+    pointing_errors = cp.ascontiguousarray(pointing_errors)
+    antenna_scaling = cp.ascontiguousarray(antenna_scaling)
+
     # Generate frequency interpolation kernel
     ikernel, iblock, idt = _generate_interp_kernel(beam_freq_map, frequencies)
 
-- 
2.43.0


From 053126b7c7cc9cbe77a2396041eb8a3ffa017c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 23/45] fix: CUDA coherency conversion checks the schema on
 each call and accepts strided inputs

---
 africanus/model/coherency/cuda/conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/model/coherency/cuda/conversion.py b/africanus/model/coherency/cuda/conversion.py
index 4aeb26b..f89c7ae 100644
--- a/africanus/model/coherency/cuda/conversion.py
+++ b/africanus/model/coherency/cuda/conversion.py
@@ -192,13 +192,16 @@ def convert(inputs, input_schema, output_schema):
                                                     input_schema,
                                                     output_schema)
 
+    # The shape is not part of the generated kernel's key
+    if inputs.shape[-len(in_shape):] != in_shape:
+        raise ValueError("Last dimension of input doesn't match input schema")
+
     # Flatten non-schema input dimensions,
-    # from inspection of the cupy reshape code,
     # this incurs a copy when inputs is non-contiguous
     nsrc = reduce(mul, inputs.shape[:-len(in_shape)], 1)
     nelems = reduce(mul, in_shape, 1)
 
-    rinputs = inputs.reshape(nsrc, nelems)
+    rinputs = cp.ascontiguousarray(inputs.reshape(nsrc, nelems))
     assert rinputs.flags.c_contiguous
     grid = grids((nsrc, 1, 1), block)
 
-- 
2.43.0


From b511b29be157bca9a6f3cde59ada9de614d8b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:57 +0000
Subject: [PATCH 24/45] fix: wsclean load returns the list it documents instead
 of a one-shot iterator

---
 africanus/model/wsclean/file_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index 74a70c7..855f35d 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -138,7 +138,7 @@ def _parse_lines(fh, line_nr, column_names, defaults, converters):
 
             data_list.append(conv(value))
 
-    return zip(*(column_names, source_data))
+    return list(zip(column_names, source_data))
 
 
 def load(filename):
-- 
2.43.0


From f5ee0beb4a7e3c3e4a6e0610d66df47a1391f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:26 +0000
Subject: [PATCH 25/45] fix: a new time bin begins at the sample that opens it

Only the first bin of a baseline recorded its start, so every later
sample exceeded the bin size and was given a bin of its own.
---
 africanus/averaging/time_and_channel_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..9f76f17 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,7 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 31177bdde42deb7148de70a4493871a8598dc2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:26 +0000
Subject: [PATCH 26/45] fix: any non-zero row flag counts as flagged when
 averaging

Row flags other than 0 and 1 mark a row as flagged when bins are made,
but matched neither flagged nor unflagged bins when rows were averaged,
so that whole bins came out as zero.
---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From c751828945bc8992d6a0a58665706465364aed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:26 +0000
Subject: [PATCH 27/45] fix: transform_sources rotates m with the unrotated l

---
 africanus/rime/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..25ce571 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -24,11 +24,11 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
             pa_cos = math.cos(parallactic_angles[t, a])
 
             for s in range(nsrc):
-                l, m = lm[s]
+                l0, m0 = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l = l0*pa_cos - m0*pa_sin  # noqa
+                m = l0*pa_sin + m0*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From 12fa8618899c48193ab613e666bd0a60345e6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:35 +0000
Subject: [PATCH 28/45] fix: refuse wsclean positions with characters after the
 seconds

---
 africanus/model/wsclean/file_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index 855f35d..a1b7f74 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -10,12 +10,12 @@ import numpy as np
 hour_re = re.compile(r"(?P<sign>[+-]*)"
                      r"(?P<hours>\d+):"
                      r"(?P<mins>\d+):"
-                     r"(?P<secs>\d+\.?\d*)")
+                     r"(?P<secs>\d+\.?\d*)$")
 
 deg_re = re.compile(r"(?P<sign>[+-])*"
                     r"(?P<degs>\d+)\."
                     r"(?P<mins>\d+)\."
-                    r"(?P<secs>\d+\.?\d*)")
+                    r"(?P<secs>\d+\.?\d*)$")
 
 
 def _hour_converter(hour_str):
-- 
2.43.0


From 13f0bbffcd4b3879bb748320ed6c0e8462d7f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:35 +0000
Subject: [PATCH 29/45] fix: refuse wsclean LogarithmicSI values other than
 true and false instead of reading them as false

---
 africanus/model/wsclean/file_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index a1b7f74..6d723e0 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -50,6 +50,13 @@ def _deg_converter(deg_str):
     return 2.0 * math.pi * value
 
 
+def _bool_converter(bool_str):
+    if bool_str not in ("true", "false"):
+        raise ValueError("Error parsing '%s'" % bool_str)
+
+    return bool_str == "true"
+
+
 def arcsec2rad(arcseconds=0.0):
     return np.deg2rad(float(arcseconds) / 3600.)
 
@@ -61,7 +68,7 @@ _COLUMN_CONVERTERS = {
     'Dec': _deg_converter,
     'I': float,
     'SpectralIndex': literal_eval,
-    'LogarithmicSI': lambda x: bool(x == "true"),
+    'LogarithmicSI': _bool_converter,
     'ReferenceFrequency': float,
     'MajorAxis': arcsec2rad,
     'MinorAxis': arcsec2rad,
-- 
2.43.0


From c60b1991049b2d040118437a1dd3f8769cdd1457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:45 +0000
Subject: [PATCH 30/45] fix: dask wsclean spectra declares the dtype its blocks
 have

---
 africanus/model/wsclean/dask.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..9dcc61d 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import numpy as np
+
 from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
@@ -28,7 +30,9 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes.dtype, spi.dtype,
+                                             ref_freq.dtype,
+                                             frequency.dtype))
 
 
 try:
-- 
2.43.0


From 127a38b881a2847dd78b83ddf2eafa4b7ffdd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:45 +0000
Subject: [PATCH 31/45] fix: dask compute_and_corrupt_vis declares the dtype of
 its result, that of jones

---
 africanus/calibration/utils/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 0d3f46f6a662ba57abf790ec939aa7378ba59c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:10 +0000
Subject: [PATCH 32/45] fix: dask spectral_model declares the dtype its blocks
 have

---
 africanus/model/spectral/dask.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..c7922d6 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import numpy as np
+
 from africanus.model.spectral.spec_model import (
                                         spectral_model as np_spectral_model,
                                         SPECTRAL_MODEL_DOC)
@@ -31,7 +33,9 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes.dtype, spi.dtype,
+                                             ref_freq.dtype,
+                                             frequencies.dtype))
 
 
 try:
-- 
2.43.0


From ada692f3fd0f3e9101f6018920387e42a84eae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:15 +0000
Subject: [PATCH 33/45] fix: abs_diff takes only one-dimensional inputs for
 vectors of one element, not any failure

---
 africanus/gps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gps/utils.py b/africanus/gps/utils.py
index be61274..74c67a7 100644
--- a/africanus/gps/utils.py
+++ b/africanus/gps/utils.py
@@ -29,7 +29,7 @@ def abs_diff(x, xp):
     try:
         N, D = x.shape
         Np, D = xp.shape
-    except Exception:
+    except ValueError:
         N = x.size
         D = 1
         Np = xp.size
-- 
2.43.0


From 8d16b6a15d96c8644ede7c4a9f1945cc1b74cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:20 +0000
Subject: [PATCH 34/45] fix: kron_cholesky adds jitter for matrices that are
 not positive definite, not after any failure

---
 africanus/linalg/kronecker_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..cdacade 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -180,6 +180,6 @@ def kron_cholesky(A):
     for i in range(D):
         try:
             L[i] = np.linalg.cholesky(A[i])
-        except Exception:  # add jitter
+        except np.linalg.LinAlgError:  # add jitter
             L[i] = np.linalg.cholesky(A[i] + 1e-13*np.eye(A[i].shape[0]))
     return L
-- 
2.43.0


From 80db5792bed61e505ea928c8262aa4ee8ca6c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 35/45] fix: lazy diagonal calibration results can be used in
 further lazy expressions

---
 africanus/calibration/phase_only/dask.py | 2 --
 africanus/calibration/utils/dask.py      | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c05a82b..ded6492 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -38,7 +38,6 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      model, model_shape,
                      flag, vis_shape,
                      adjust_chunks={"row": jones.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
                      dtype=np.empty(0, jones.dtype).real.dtype,
                      align_arrays=False)
 
@@ -65,7 +64,6 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      model, model_shape,
                      flag, vis_shape,
                      adjust_chunks={"row": jones.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
                      dtype=jones.dtype,
                      align_arrays=False)
 
diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 8d1598c..76acf6c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -66,7 +66,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=model.dtype,
                      align_arrays=False)
 
@@ -127,7 +127,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      freq, ("chan",),
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=jones.dtype,
                      align_arrays=False)
 
@@ -172,7 +172,7 @@ def correct_vis(time_bin_indices, time_bin_counts, antenna1,
                      vis, out_shape,
                      flag, out_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=vis.dtype,
                      align_arrays=False)
 
@@ -223,7 +223,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                      flag, out_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=vis.dtype,
                      align_arrays=False)
 
-- 
2.43.0


From 7f5ed69512faacad66727c19019dd0c4be360edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 36/45] fix: wsclean spectra and wsclean_predict refuse
 coefficients chunked along the polynomial

Only the first chunk of coefficients entered the spectrum.
---
 africanus/model/wsclean/dask.py | 3 +++
 africanus/rime/dask_predict.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 9dcc61d..5638def 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -21,6 +21,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
+    if len(da.asarray(spi).chunks[1]) != 1:
+        raise ValueError("Chunking along the spi dimension unsupported")
+
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..e25cee4 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -470,6 +470,9 @@ def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
 @requires_optional('dask.array', opt_import_error)
 def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                     log_poly, ref_freq, gauss_shape, frequency):
+    if len(da.asarray(coeffs).chunks[1]) != 1:
+        raise ValueError("Chunking along the comp dimension unsupported")
+
     spectrum_dtype = np.result_type(*(a.dtype for a in (flux, coeffs,
                                                         log_poly, ref_freq,
                                                         frequency)))
-- 
2.43.0


From 13ca4c7d2f48d271e2cadb4a291f69fdaaa7f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 37/45] fix: zernike_dde refuses coefficients and indices
 chunked along the polynomial

Only the first chunk of polynomials was summed.
---
 africanus/rime/dask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/rime/dask.py b/africanus/rime/dask.py
index 6502b65..f5783a4 100644
--- a/africanus/rime/dask.py
+++ b/africanus/rime/dask.py
@@ -156,6 +156,9 @@ def _zernike_wrapper(coords, coeffs, noll_index):
 
 @requires_optional('dask.array', da_import_error)
 def zernike_dde(coords, coeffs, noll_index):
+    if any(len(da.asarray(a).chunks[-1]) != 1 for a in (coeffs, noll_index)):
+        raise ValueError("Chunking along the poly dimension unsupported")
+
     ncorrs = len(coeffs.shape[2:-1])
     corr_dims = tuple("corr-%d" % i for i in range(ncorrs))
 
-- 
2.43.0


From 86e5e9aa063fccf703021bf1c86fc4d7c50da605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 38/45] fix: fit_spi_components refuses data chunked along
 channel

Only the first chunk of channels was fitted.
---
 africanus/model/spi/dask.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..b324c72 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -8,7 +8,7 @@ from africanus.model.spi.component_spi import (
 from africanus.util.requirements import requires_optional
 
 try:
-    from dask.array.core import blockwise
+    from dask.array.core import asarray, blockwise
 except ImportError as e:
     opt_import_error = e
 else:
@@ -33,6 +33,10 @@ def fit_spi_components(data, weights, freqs, freq0,
                        alphai=None, I0i=None, beam=None,
                        tol=1e-5, maxiter=100):
     """ Dask wrapper fit_spi_components function """
+    if any(len(asarray(a).chunks[-1]) != 1
+           for a in (data, weights, freqs, beam) if a is not None):
+        raise ValueError("Chunking along the chan dimension unsupported")
+
     return blockwise(_fit_spi_components_wrapper, ("vars", "comps"),
                      data, ("comps", "chan"),
                      weights, ("chan",),
-- 
2.43.0


From 953589c131eae25dd5755e72ec0d788c5fbc734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 39/45] fix: spectral_model gives each chunk of polarisations
 its own bases

With a list of bases every chunk started again at the first.
---
 africanus/model/spectral/dask.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index c7922d6..491de31 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -27,6 +27,15 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
 
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
+    if isinstance(base, list) and pol_dim and len(stokes.chunks[1]) != 1:
+        # Every block of polarisations needs its own part of the list
+        base = base + [base[-1]] * (stokes.shape[1] - len(base))
+        ends = np.cumsum(stokes.chunks[1])
+        return da.concatenate(
+            [spectral_model(stokes[:, e - n:e], spi[:, :, e - n:e],
+                            ref_freq, frequencies, base=base[e - n:e])
+             for n, e in zip(stokes.chunks[1], ends)], axis=2)
+
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
                         stokes, ("source",) + pol_dim,
                         spi, ("source", "spi") + pol_dim,
-- 
2.43.0


From 1b688a63b2b64097dec36e9cc2a742a35a6b5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 40/45] fix: vis_to_im drops a sample if a correlation in
 another chunk is flagged

---
 africanus/dft/dask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/africanus/dft/dask.py b/africanus/dft/dask.py
index eff1415..f5b7617 100644
--- a/africanus/dft/dask.py
+++ b/africanus/dft/dask.py
@@ -71,6 +71,11 @@ def vis_to_im(vis, uvw, lm, frequency, flags,
         raise ValueError("Vis chunks must match flags "
                          "chunks on all axes")
 
+    if len(flags.chunks[2]) != 1:
+        # A sample is dropped if any of its correlations is flagged
+        flags = da.broadcast_to(flags.any(axis=2, keepdims=True),
+                                vis.shape, chunks=vis.chunks)
+
     ims = da.core.blockwise(_vis_to_im_wrapper,
                             ("row", "source", "chan", "corr"),
                             vis, ("row", "chan", "corr"),
-- 
2.43.0


From 1c1e246d01b11af773f546ed2a533fafdd6929e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 41/45] fix: coherency convert refuses chunked correlations

They failed in the computation, or used the wrong correlations if
only those of the first chunk were needed.
---
 africanus/model/coherency/dask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/africanus/model/coherency/dask.py b/africanus/model/coherency/dask.py
index 7014236..ae3b358 100644
--- a/africanus/model/coherency/dask.py
+++ b/africanus/model/coherency/dask.py
@@ -31,6 +31,11 @@ def convert(input, input_schema, output_schema):
                                                         output_schema)
 
     n_free_dims = len(input.shape) - len(in_shape)
+
+    if any(len(c) != 1 for c in input.chunks[n_free_dims:]):
+        raise ValueError("Chunking along the correlation "
+                         "dimensions unsupported")
+
     free_dims = tuple("dim-%d" % i for i in range(n_free_dims))
     in_corr_dims = tuple("icorr-%d" % i for i in range(len(in_shape)))
     out_corr_dims = tuple("ocorr-%d" % i for i in range(len(out_shape)))
-- 
2.43.0


From 98d5719b2985ce56cb1a404749af232ec4ee76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 42/45] fix: lazy calibration refuses chunked correlations and
 antennas it cannot evaluate

A flag only affected the correlations of its own chunk, and gains of
other chunks of antennas were read out of bounds.
---
 africanus/calibration/phase_only/dask.py | 10 ++++++++++
 africanus/calibration/utils/dask.py      |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index ded6492..c86a635 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -26,6 +26,11 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+    if len(flag.chunks[2]) != 1:
+        raise ValueError("Cannot chunk flag over correlation")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
@@ -51,6 +56,11 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+    if len(flag.chunks[2]) != 1:
+        raise ValueError("Cannot chunk flag over correlation")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 76acf6c..75ab3ba 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -40,6 +40,8 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
         raise ValueError("Cannot chunk jones over direction")
     if model.chunks[2][0] != model.shape[2]:
         raise ValueError("Cannot chunk model over direction")
+    if mode != DIAG_DIAG and any(len(c) != 1 for c in model.chunks[3:]):
+        raise ValueError("Cannot chunk model over correlation")
 
     if mode == DIAG_DIAG:
         out_shape = ("row", "chan", "corr1")
@@ -99,6 +101,9 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
 
     mode = check_type(jones, model, vis_type='model')
 
+    if mode != DIAG_DIAG and any(len(c) != 1 for c in model.chunks[3:]):
+        raise ValueError("Cannot chunk model over correlation")
+
     if mode == DIAG_DIAG:
         out_shape = ("row", "chan", "corr1")
         model_shape = ("row", "chan", "dir", "corr1")
@@ -146,6 +151,8 @@ def correct_vis(time_bin_indices, time_bin_counts, antenna1,
         raise ValueError("Cannot chunk jones over antenna")
     if jones.chunks[3][0] != jones.shape[3]:
         raise ValueError("Cannot chunk jones over direction")
+    if any(len(c) != 1 for c in flag.chunks[2:]):
+        raise ValueError("Cannot chunk flag over correlation")
 
     mode = check_type(jones, vis)
 
@@ -193,6 +200,8 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
         raise ValueError("Cannot chunk jones over direction")
     if model.chunks[2][0] != model.shape[2]:
         raise ValueError("Cannot chunk model over direction")
+    if any(len(c) != 1 for c in flag.chunks[2:]):
+        raise ValueError("Cannot chunk flag over correlation")
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 9db9feb6702b11567e0a431c7e1d9ccc154ca2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:57 +0000
Subject: [PATCH 43/45] fix: lazy averaging keeps the weights and sigmas of
 every chunk of correlations

Only the first chunk was averaged.
---
 africanus/averaging/dask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 82ff57b..ddb9053 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -107,6 +107,10 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
                 weight=None, sigma=None):
     """ Average row-based dask arrays """
 
+    # The last dimension is contracted within each block
+    uvw, weight, sigma = (None if a is None else a.rechunk({1: -1})
+                          for a in (uvw, weight, sigma))
+
     rd = ("row",)
     rcd = ("row", "corr")
 
-- 
2.43.0


From 207c0ea9d57d1d2cc0a527470fbc467f605f545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:57 +0000
Subject: [PATCH 44/45] fix: lazy predict_vis refuses chunked (2, 2)
 correlations

Jones matrices were indexed out of their chunk.
---
 africanus/rime/dask_predict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index e25cee4..00010db 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -364,6 +364,13 @@ def predict_vis(time_index, antenna1, antenna2,
     (have_ddes1, have_coh, have_ddes2,
      have_dies1, have_bvis, have_dies2) = predict_check_tup
 
+    for array, ndim in ((dde1_jones, 4), (source_coh, 3), (dde2_jones, 4),
+                        (die1_jones, 3), (base_vis, 2), (die2_jones, 3)):
+        if (array is not None and array.ndim == ndim + 2 and
+                any(len(c) != 1 for c in array.chunks[ndim:])):
+            raise ValueError("Subdivision of (2, 2) correlations into "
+                             "multiple chunks is not supported.")
+
     have_ddes = have_ddes1 and have_ddes2
 
     if have_ddes:
-- 
2.43.0


From 37e934acc9a72b29e8f5d89d92e1dc45e6d84a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 45/45] fix: aggregate_chunks makes no empty chunk before a
 first chunk above the limit

---
 africanus/util/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..a0500ca 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,8 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # There is nothing to aggregate before the first chunk
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0

