From 6bc636435412e710c1ea0c15036b1487a8159c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:42 +0000
Subject: [PATCH 01/13] fix: compute the vector SHT 1/(l(l+1)) normalisation in
 double precision

The degree vector was created as an integer tensor, so 1.0 / l / (l + 1)
was rounded to the default float32 before being folded into the float64
weights, limiting the double precision transform to single precision.
---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From 19b8867c4e5d0b0d2884521d6db569df98ed3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:24 +0000
Subject: [PATCH 02/13] fix: spherical resampling uses the slerp weights for
 negative angles too

---
 torch_harmonics/distributed/distributed_resample.py | 8 ++++----
 torch_harmonics/resample.py                         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..6fbde2a 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +204,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..da553b9 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +212,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From aa86c708bcb848eb3df3b7d9317dd5d63468a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:24 +0000
Subject: [PATCH 03/13] fix: resampling from a grid with a single longitude no
 longer divides by zero

---
 torch_harmonics/distributed/distributed_resample.py | 2 +-
 torch_harmonics/resample.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 6fbde2a..0d3a2fe 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -144,7 +144,7 @@ class DistributedResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index da553b9..56b2477 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -168,7 +168,7 @@ class ResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
-- 
2.43.0


From 4100ee934cf416e70ee52b2651be0d0a1a973dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:13 +0000
Subject: [PATCH 04/13] fix: do not serve cached precomputations for tensors
 modified in place

---
 torch_harmonics/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torch_harmonics/cache.py b/torch_harmonics/cache.py
index 9f49afe..8b8342c 100644
--- a/torch_harmonics/cache.py
+++ b/torch_harmonics/cache.py
@@ -32,6 +32,8 @@
 import functools
 from copy import deepcopy
 
+import torch
+
 
 # copying LRU cache decorator a la:
 # https://stackoverflow.com/questions/54909357/how-to-get-functools-lru-cache-to-return-new-instances
@@ -67,6 +69,9 @@ def lru_cache(maxsize=20, typed=False, copy=False):
         cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(f)
 
         def wrapper(*args, **kwargs):
+            # tensors hash by identity, not by value: a cached result would go stale once the tensor is modified in place
+            if any(isinstance(arg, torch.Tensor) for arg in (*args, *kwargs.values())):
+                return f(*args, **kwargs)
             res = cached_func(*args, **kwargs)
             if copy:
                 return deepcopy(res)
-- 
2.43.0


From 64e7a6b94fdc30f319f89e63c1904acc5d5ae3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 05/13] fix: reference attention no longer divides zero by zero
 when all query-key products are very negative

---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From e752d0170f839cbca405184655fa423169ba55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 06/13] fix: reference DISCO contraction compares longitudes
 with longitudes

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0


From d7196764969131045f4311c5068a67ef6c516b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 07/13] fix: preprocess_psi starts a new row segment when only
 the filter changes

---
 torch_harmonics/disco/optimized/disco_helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..caec3f4 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -85,7 +85,7 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        if (ker_h[i - 1] == ker_h[i] && row_h[i - 1] == row_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 422fef38a0deef0919988efe77d8ed8e2236c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 08/13] fix: preprocess_psi returns no row segments for a
 filter tensor without entries

---
 torch_harmonics/disco/optimized/disco_helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index caec3f4..2ec6af9 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -81,7 +81,7 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] val_sort;
 
     // compute rows offsets
-    nrows = 1;
+    nrows = (nnz > 0) ? 1 : 0;
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-- 
2.43.0


From 28075b19bec8a9b6afcb7f2ad052ce6e3b56cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:32 +0000
Subject: [PATCH 09/13] fix: Zernike basis accepts an empty set of supported
 points

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..7f6e214 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -434,7 +434,7 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        max_bound = int(bound.max().item()) if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From c77da9da2d5693d922b9e7957e689b7cadd4d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:27 +0000
Subject: [PATCH 10/13] fix: evaluate the Zernike factorials in double
 precision

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 7f6e214..d4b8a4c 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -57,7 +57,7 @@ def _circle_dist(x1: torch.Tensor, x2: torch.Tensor):
 
 
 def _log_factorial(x: torch.Tensor):
-    return torch.lgamma(x + 1)
+    return torch.lgamma((x + 1).to(torch.float64))
 
 
 def _factorial(x: torch.Tensor):
-- 
2.43.0


From cf4b5330aa0d22c0e241038917bd4b8a0db57e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 11/13] fix: distributed reductions keep double precision and
 imaginary parts

---
 torch_harmonics/distributed/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..896a765 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,7 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +464,7 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From ce2944b333e60d0f69a1012ca9174b3bcbaf6201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 12/13] fix: distributed DISCO accepts a rank with exactly one
 filter entry

---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..62c3043 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(-1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 898ed7cb52c6aa862028f06eb6395fa83ca3ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:35 +0000
Subject: [PATCH 13/13] fix: DistributedSpectralConvS2 with bias computes its
 integral in single precision like the serial module (double input raised a
 dtype error)

---
 .../distributed_spectral_convolution.py         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..879276b 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,16 +195,17 @@ class DistributedSpectralConvS2(nn.Module):
     def forward(self, x):
         dtype = x.dtype
 
-        # compute integral in case if bias is used
-        if hasattr(self, "spectral_bias"):
-            integral = self.quadrature(x)
-            if self.comm_size_polar > 1:
-                integral = copy_to_polar_region(integral)
-            if self.comm_size_azimuth > 1:
-                integral = copy_to_azimuth_region(integral)
-
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
             x = x.to(torch.float32)
+
+            # compute integral in case if bias is used
+            if hasattr(self, "spectral_bias"):
+                integral = self.quadrature(x)
+                if self.comm_size_polar > 1:
+                    integral = copy_to_polar_region(integral)
+                if self.comm_size_azimuth > 1:
+                    integral = copy_to_azimuth_region(integral)
+
             x = self.sht(x).contiguous()
 
         # store the shapes
-- 
2.43.0

