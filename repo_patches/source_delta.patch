From cdedaddd6070423deaf9ddb229b642464df67805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:09 +0000
Subject: [PATCH 01/32] fix: recompute IDW neighbours when max_distance changes
 between calls

---
 pycomlink/spatial/idw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..9cf13ce 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -99,6 +99,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and np.array_equal(max_distance, self.max_distance)
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -110,6 +112,7 @@ class Invdisttree(object):
             self.q = q
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
-- 
2.43.0


From b70bddcf7aabf80bea04afa79284c24f1dc08708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:09 +0000
Subject: [PATCH 02/32] fix: keep a copy of the query points cached by
 Invdisttree

---
 pycomlink/spatial/idw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 9cf13ce..99a491e 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -109,7 +109,8 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            # keep a copy, the caller may change its array in-place later
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
             self.max_distance = max_distance
-- 
2.43.0


From 9a13517b459fe96d5e961de7019a217e37de3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:09 +0000
Subject: [PATCH 03/32] fix: keep copies of the coordinates cached by
 IdwKdtreeInterpolator

---
 pycomlink/spatial/interpolator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..6580233 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -103,8 +103,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            # keep copies, the caller may change its arrays in-place later
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From a8dc708ef71054f8f8a948c519766f68148bf696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:09 +0000
Subject: [PATCH 04/32] fix: return a NaN grid for all-NaN input also with
 integer grid coordinates

---
 pycomlink/spatial/interpolator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 6580233..a83bb57 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,9 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
-            zgrid[:] = np.nan
-            self.zgrid = zgrid
+            self.zgrid = np.full(np.shape(self.xgrid), np.nan)
 
         else:
             zi = self._interpol_func(
-- 
2.43.0


From 0a0bf682fcdb3b3455bd872abd4a31e22d31300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:58 +0000
Subject: [PATCH 05/32] fix: do not treat NaN in wet as wet in
 baseline_constant

---
 pycomlink/processing/baseline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..df57712 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,8 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        # float so that NaN, i.e. unknown wet/dry information, is not cast to wet
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -55,9 +56,9 @@ def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif wet[i] and not wet[i - 1]:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i] and wet[i - 1]:
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From d79ca50615e68f4e1e6c4255f7a5ac89987eedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:58 +0000
Subject: [PATCH 06/32] fix: baseline_linear must not return 0 for a wet period
 at the end of the series

---
 pycomlink/processing/baseline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index df57712..2ba1a25 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -104,7 +104,8 @@ def baseline_linear(rsl, wet, ignore_nan=False):
 
 @jit(nopython=True)
 def _numba_baseline_linear(rsl, wet, ignore_nan=False):
-    baseline = np.zeros_like(rsl, dtype=np.float64)
+    # Stays NaN for a wet period which has no dry value after it
+    baseline = np.full(rsl.shape, np.nan)
     baseline[0] = rsl[0]
     last_dry_i = 0
     last_dry_rsl = rsl[0]
-- 
2.43.0


From f39f5c7e647cd722c64fc3f6b7b75ca21f228f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:58 +0000
Subject: [PATCH 07/32] fix: blackout gap markers must not wrap around the ends
 of the series

---
 pycomlink/processing/blackout_gap_detection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..ea88be8 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -27,8 +27,13 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     with np.errstate(invalid="ignore"):
         rsl_below_threshold = rsl < rsl_threshold
     rsl_nan = np.isnan(rsl)
-    gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
-    gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
+    next_is_nan = np.roll(rsl_nan, -1)
+    previous_is_nan = np.roll(rsl_nan, 1)
+    # the first and last value of the time series are not neighbors
+    next_is_nan[-1:] = False
+    previous_is_nan[:1] = False
+    gap_start = next_is_nan & rsl_below_threshold
+    gap_end = previous_is_nan & rsl_below_threshold
 
     return gap_start, gap_end
 
-- 
2.43.0


From b2bf7b2b81ee778488e344da6967a892048e143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:58 +0000
Subject: [PATCH 08/32] fix: get_blackout_start_and_end with DataArrays, which
 has two outputs

---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index ea88be8..394b834 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..5195015 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int, default = 1
+        Number of time series that the decorated function returns
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From abe697039b1dfdf8dc44e95eda0e2cac0fd5dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:58 +0000
Subject: [PATCH 09/32] fix: xarray wrapper must not drop unknown or accept
 missing arguments

---
 pycomlink/processing/xarray_wrapper.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 5195015..d512855 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -69,13 +69,8 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
-    new_args_dict = OrderedDict()
-    for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
-        if i < len(args):
-            new_args_dict[arg] = args[i]
-        elif arg in kwargs.keys():
-            new_args_dict[arg] = kwargs[arg]
-        else:
-            new_args_dict[arg] = parameter.default
+    # raises TypeError for missing, unknown or duplicate arguments
+    bound_args = inspect.signature(func).bind(*args, **kwargs)
+    bound_args.apply_defaults()
 
-    return new_args_dict
+    return OrderedDict(bound_args.arguments)
-- 
2.43.0


From 870daef5182f6772896485f721f1444229949221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:36 +0000
Subject: [PATCH 10/32] fix: replace matplotlib.mlab.find, which was removed
 from matplotlib

---
 pycomlink/processing/wet_dry/stft.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..14c1643 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -217,7 +216,7 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     """
 
     roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
+    dry_stop = np.flatnonzero(roll_std_dev == np.nanmin(roll_std_dev))
     dry_stop = dry_stop[0]
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
-- 
2.43.0


From c49b7819bb15394861e6f5173a895a63b9081eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:36 +0000
Subject: [PATCH 11/32] fix: stft_classification with mirror=True used float
 indices and a too short window

---
 pycomlink/processing/wet_dry/stft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 14c1643..193cde3 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -104,7 +104,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -128,15 +128,15 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
+        for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
             rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
+                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
             )
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == (len(rsl) - 1) - (NFFT // 2 - 1):
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From 97fed7a2b4a94e3c461b8068b8b74a892e2af439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 12/32] fix: nearby_wetdry must not add a variable to the
 ds_dist of the caller

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..89ba5be 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,10 +174,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
             ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
+                cml_id=within_r.sel(cml_id1=cmlid).values
             )
 
             # calculate median delta P and delta PL for each timestep
-- 
2.43.0


From 2bc3319f929d0bde99117750d8a792bc5c367933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 13/32] fix: nearby_wetdry must match CMLs of pmin and ds_dist
 by their id

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 89ba5be..3031bf2 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -173,12 +173,12 @@ def nearby_wetdry(
     medianPL_out = xr.full_like(ds_cml.pmin, np.nan)
 
     for cmlid in tqdm(ds_cml.cml_id):
+        # CMLs within r, in the order of the CMLs in `pmin`
+        is_nearby = within_r.sel(cml_id1=cmlid, cml_id2=ds_cml.cml_id).values
         # only make wet dry detection if min_links is reached within radius
-        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(is_nearby) > min_links:
             # select all CMLs within r
-            ds_nearby_cmls = ds_cml.isel(
-                cml_id=within_r.sel(cml_id1=cmlid).values
-            )
+            ds_nearby_cmls = ds_cml.isel(cml_id=is_nearby)
 
             # calculate median delta P and delta PL for each timestep
             # .where checks if the minimal require number of CMLs has data
-- 
2.43.0


From c06cdcbd9d2db926507dbcceed6454316084d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 14/32] fix: nearby_wetdry F value assumed an interval of 15
 minutes

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 3031bf2..dc282bf 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -206,7 +206,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From c4ff25a85a13caa4556d8248740729d7752b908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 15/32] fix: replace shapely cascaded_union, which was removed
 from shapely

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From 9cbd8de242d5c46ca6c6f6f6cb647581f80cc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 16/32] fix: list_cached_models never matched a cached model

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..e1b2361 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -102,7 +102,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From f6b649ce2947ca874f50ee4f68e243c8f49f06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 17/32] fix: report unsupported .pth and .pt2 models also when
 given as path with directory

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e1b2361..e004328 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -145,14 +145,14 @@ def get_model(model_path_or_url, force_download=False):
     if model_path_or_url.startswith(("http://", "https://")):
         # It's a URL
         return _load_model_from_url(model_path_or_url, force_download)
-    elif model_path_or_url.endswith(".pt") or "/" in model_path_or_url:
-        # It's a local model path
-        return _load_model_from_local_path(model_path_or_url)
     elif model_path_or_url.endswith(".pth") or model_path_or_url.endswith(".pt2"):
         # It's a legacy model path
         raise Exception(
             ".pth and .pt2 models are currently not supported. Please convert to .pt format using torch.jit.script()."
         )
+    elif model_path_or_url.endswith(".pt") or "/" in model_path_or_url:
+        # It's a local model path
+        return _load_model_from_local_path(model_path_or_url)
     else:
         # It's neither url, nor path
         raise Exception(
-- 
2.43.0


From 5ee1cb230eef8344394a90573978f481a8b81136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 18/32] fix: interrupted download left a partial PyTorch model
 in the cache

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e004328..4b83cc8 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -33,6 +33,7 @@ Example Usage:
 """
 
 import hashlib
+import os
 import urllib.request
 from pathlib import Path
 
@@ -66,7 +67,10 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # An interrupted download must not leave a partial file in the cache
+        tmp_path = cache_dir / f"{model_filename}.{os.getpid()}.part"
+        urllib.request.urlretrieve(model_url, tmp_path)
+        os.replace(tmp_path, cached_path)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
-- 
2.43.0


From fc043bc1dbcc8b13363b2e4a4975872510fb4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 19/32] fix: interrupted download left a partial TensorFlow
 model file in the cache

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..815e61d 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import os
 import urllib.request
 from pathlib import Path
 
@@ -123,7 +124,10 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # An interrupted download must not leave a partial file in the cache
+        tmp_path = cache_dir / f"{filename}.{os.getpid()}.part"
+        urllib.request.urlretrieve(url, tmp_path)
+        os.replace(tmp_path, cached_path)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From 2208cc442a0844f0c1a85f4c19610216f1d79767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 20/32] fix: files of different URLs with the same name shared
 one cache entry

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 815e61d..46b7e81 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import os
 import urllib.request
 from pathlib import Path
@@ -119,7 +120,9 @@ def download_and_cache(url, cache_dir, force_download=False):
     """
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
-    filename = url.split("/")[-1]
+    # Add URL hash since files from different URLs can have the same name
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    filename = f"{url_hash}_{url.split('/')[-1]}"
     cached_path = cache_dir / filename
 
     if not cached_path.exists() or force_download:
-- 
2.43.0


From 50cad89d100ee2467892a400173cde816432cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:03 +0000
Subject: [PATCH 21/32] fix: wet_dry_1d_cnn only worked with the default name
 of the id coordinate

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 46b7e81..2fcb7b1 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -31,7 +31,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -41,6 +43,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -50,7 +53,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..46b0964 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -81,7 +81,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
     # Predict
@@ -98,7 +98,8 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
-        var_name=prob_name)    
+        var_name=prob_name,
+        cml_dim=id_coord)
 
     if return_ds:
         return xr.merge([ds, pred_array.to_dataset()])
-- 
2.43.0


From 9749d36133a16374fecbc0659d7f3dfb98a8510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 22/32] fix: Validator.calc_stats must not change the index of
 the data of the CML

---
 pycomlink/validation/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..a52fe3f 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,13 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
+        cml_data = cml.data.copy()
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
+        cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        joined_df = time_series_df.join(cml_data.txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From 8a0a47ed0bbbfb1f0fbe97cb75d3b6f81a4ac06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:10 +0000
Subject: [PATCH 23/32] fix: nearby_wetdry returns float wet and F for integer
 pmin

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index dc282bf..e7ec2bf 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -167,8 +167,8 @@ def nearby_wetdry(
     ds_cml["deltaP"] = deltaP
     ds_cml["deltaPL"] = deltaPL
 
-    wet = xr.full_like(ds_cml.pmin, np.nan)
-    F = xr.full_like(ds_cml.pmin, np.nan)
+    wet = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    F = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
     medianP_out = xr.full_like(ds_cml.pmin, np.nan)
     medianPL_out = xr.full_like(ds_cml.pmin, np.nan)
 
-- 
2.43.0


From 286301a7e8e384baf187662e64b03de6377dcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:56 +0000
Subject: [PATCH 24/32] fix: read min/max data from cmlh5 files

get_75_cmls_min_max() raised KeyError because the reader only knew the tx
and rx time series.
---
 pycomlink/io/cmlh5_to_xarray.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pycomlink/io/cmlh5_to_xarray.py b/pycomlink/io/cmlh5_to_xarray.py
index b2dfa31..cffeaed 100644
--- a/pycomlink/io/cmlh5_to_xarray.py
+++ b/pycomlink/io/cmlh5_to_xarray.py
@@ -33,11 +33,21 @@ def read_cmlh5_file_to_xarray(filename):
         ds_channel_list = []
         for channel_name, channel_g in cml_g.items():
             cml_ch_g = cml_g[channel_name]
-            ds_temp = xr.Dataset(
-                data_vars={
+            if "tx_min" in cml_ch_g:
+                # minimum and maximum of each time interval
+                data_vars = {
+                    "tsl_min": ("time", cml_ch_g["tx_min"][:]),
+                    "tsl_max": ("time", cml_ch_g["tx_max"][:]),
+                    "rsl_min": ("time", cml_ch_g["rx_min"][:]),
+                    "rsl_max": ("time", cml_ch_g["rx_max"][:]),
+                }
+            else:
+                data_vars = {
                     "tsl": ("time", cml_ch_g["tx"][:]),
                     "rsl": ("time", cml_ch_g["rx"][:]),
-                },
+                }
+            ds_temp = xr.Dataset(
+                data_vars=data_vars,
                 coords={
                     "time": (cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]"),
                     "channel_id": channel_name,
-- 
2.43.0


From ad1e5d8416b5cde337c7310167b2bbdc0ab946d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:15 +0000
Subject: [PATCH 25/32] fix: plot_intersections passed an option that poligrain
 does not have

---
 pycomlink/validation/validator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index a52fe3f..1bbfe24 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -136,22 +136,25 @@ class GridValidator(Validator):
         cml_coords = cml.get_coordinates()
 
         # get intersect weights
-        intersect, pixel_poly_list = plg.spatial.calc_intersect_weights(
+        intersect = plg.spatial.calc_intersect_weights(
             x1_line=cml_coords.lon_a,
             y1_line=cml_coords.lat_a,
             x2_line=cml_coords.lon_b,
             y2_line=cml_coords.lat_b,
             x_grid=self.xr_ds.longitudes.values,
             y_grid=self.xr_ds.latitudes.values,
-            return_pixel_poly_list=True,
         )
 
         ax.pcolormesh(lons, lats, intersect, cmap=plt.cm.gray_r)
         ax.scatter(
             self.xr_ds.longitudes.values, self.xr_ds.latitudes.values, s=1, c="k"
         )
-        for pixel_poly in pixel_poly_list:
-            ax.plot(*pixel_poly.exterior.xy)
+        # outline the grid cells that the CML path crosses
+        for i, j in zip(*np.where(intersect > 0)):
+            ax.plot(
+                lons[[i, i, i + 1, i + 1, i], [j, j + 1, j + 1, j, j]],
+                lats[[i, i, i + 1, i + 1, i], [j, j + 1, j + 1, j, j]],
+            )
 
         ax.set_ylim()
 
-- 
2.43.0


From adcdb788e78a8ef72fddab86eaa7924fd1ef2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:29 +0000
Subject: [PATCH 26/32] fix: redistribute_results dropped predictions of shape
 (n, 1)

---
 pycomlink/processing/pytorch_utils/run_inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..e64d487 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,8 +151,9 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
     cml_ids = results["cml_ids"]  # Already numpy array
+    # Remove any extra dimensions: models commonly return an array of shape (n, 1)
+    predictions = np.reshape(results["predictions"], len(cml_ids))
     times = results["times"]  # Already numpy array
 
     # Get original dimensions
-- 
2.43.0


From bb521e6a762e9b2dc5857494011905dc59f319bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:52 +0000
Subject: [PATCH 27/32] fix: aggregate_df_onto_DatetimeIndex labelled local
 times as UTC

---
 pycomlink/util/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..bbf77c2 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -67,7 +67,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Update name and timezone of new index
     df_reindexed.index.name = df_temp.index.name
     if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
+        df_reindexed.index = df_reindexed.index.tz_localize(new_index_tz).tz_convert(
             df_temp.index.tzinfo
         )
 
-- 
2.43.0


From 7516309df9d45f14d476e127e97171af010fbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 28/32] fix: Validator.calc_stats joined time stamps with
 strings and returned NaN

---
 pycomlink/validation/validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 1bbfe24..71cfca5 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -18,7 +18,8 @@ class Validator(object):
     def calc_stats(self, cml, time_series):
         cml_data = cml.data.copy()
         time_series_df = pd.DataFrame(
-            data={"xr_ds": time_series}, index=time_series.time
+            data={"xr_ds": np.asarray(time_series)},
+            index=pd.DatetimeIndex(time_series.time).strftime("%Y-%m-%d %H:%M:%S"),
         )
         cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-- 
2.43.0


From 07f92e9a34fa51cb1f6ca5fc20bed84963bd8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 29/32] fix: a_b raised for a frequency DataArray without
 dimension

---
 pycomlink/processing/k_R_relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..9934a03 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -203,6 +203,7 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -258,8 +259,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), coords=f_GHz_coords)
+        b = xr.DataArray(b.reshape(f_GHz_shape), coords=f_GHz_coords)
 
     return a, b
 
-- 
2.43.0


From a885836a505892e4b15d2eb93dce22263735363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:04 +0000
Subject: [PATCH 30/32] fix: wet antenna attenuation of a single rain rate
 raised TypeError

---
 pycomlink/processing/wet_antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..a4106f2 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,7 +293,7 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa
 
@@ -416,7 +416,7 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa  # @xarray_apply_along_time_dim()
 
-- 
2.43.0


From 438c11ae54e08af0d59e52054c8c75f5cef312d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 31/32] fix: calc_R_from_A_min_max raised TypeError for a
 single attenuation

---
 pycomlink/processing/k_R_relation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 9934a03..b0c67a6 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -147,6 +147,7 @@ def calc_R_from_A_min_max(
     a_max = a * (np.log(k) + euler_gamma) ** b
 
     # calculate rainfall
+    Ar_max = np.atleast_1d(Ar_max)
     R = np.zeros_like(Ar_max, dtype="float")
 
     nan_index = np.isnan(Ar_max)
-- 
2.43.0


From 748d242bcaf4804abb32a81444297295a28373bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 32/32] fix: the dry period of stft_classification was empty if
 the series starts with it

---
 pycomlink/processing/wet_dry/stft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 193cde3..27fd24d 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -211,13 +211,14 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     int
         Index of beginning of dry period
     int
-        Index of end of dry period
+        Index of end of dry period (exclusive, as for slicing)
 
     """
 
     roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
     dry_stop = np.flatnonzero(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    # the window includes the sample that it is labelled with
+    dry_stop = dry_stop[0] + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0

