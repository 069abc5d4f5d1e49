From 6db78e92017412ce6e01a666861e22a42b680c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 01/51] fix: accept weights given as a list in KDE

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..f12e59e 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,10 +201,10 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights).astype(float)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-            weights = np.asarray(weights).astype(float)
             weights_uniform = False
 
         if neff is None:
-- 
2.43.0


From e6fa1a2bceaaa625d5ae182f9b873e801a539ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 02/51] fix: do not modify the caller's reflect argument,
 accept tuples and True in one dimension

---
 kalepy/kernels.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..445eb1a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -710,8 +710,8 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
-    if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+    if (len(reflect) == 2) and (ndim == 1) and utils.really1d(reflect):
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
@@ -728,15 +728,21 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Do not modify the input argument
+    reflect = [ref if (ref is None) or (ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
-        elif (reflect[ii] is not None) and (True in reflect[ii]):
+            reflect[ii] = [True, True]
+
+        if reflect[ii] is not None:
+            # `True` means just outside of the data extrema
+            lo, hi = np.min(data[ii]), np.max(data[ii])
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = lo*(1 - _NUM_PAD)
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = hi*(1 + _NUM_PAD)
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 5a85495a77a6fb8a7b3553dbdeb1c63898de4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 03/51] fix: pad reflecting boundaries outward also for
 negative data extrema

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 445eb1a..157aa84 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -740,9 +740,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
             # `True` means just outside of the data extrema
             lo, hi = np.min(data[ii]), np.max(data[ii])
             if reflect[ii][0] is True:
-                reflect[ii][0] = lo*(1 - _NUM_PAD)
+                reflect[ii][0] = lo - np.fabs(lo)*_NUM_PAD
             if reflect[ii][1] is True:
-                reflect[ii][1] = hi*(1 + _NUM_PAD)
+                reflect[ii][1] = hi + np.fabs(hi)*_NUM_PAD
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 05396e64e254f77801a0ea83ac689b7d5c3bb8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 04/51] fix: zero the density outside every reflecting
 boundary, not only the last

---
 kalepy/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 157aa84..3b28d23 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,6 +114,7 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
@@ -129,8 +130,9 @@ class Kernel(object):
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside |= (points[ii, :] < lo) | (hi < points[ii, :])
+
+        result[outside] = 0.0
 
         result = result / norm
         return result
-- 
2.43.0


From d520f4152d30e9eca2fc7e58e358ed5d217656a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 05/51] fix: mirror integer data about fractional boundaries
 without truncation

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 3b28d23..fca77e6 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -124,7 +124,7 @@ class Kernel(object):
                     continue
 
                 # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
+                refl_data = np.array(data, dtype=float)
                 refl_data[ii, :] = 2*loc - refl_data[ii, :]
                 result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
 
@@ -314,7 +314,7 @@ class Kernel(object):
                     continue
 
                 bounds[ii, jj] = loc
-                new_data = np.array(old_data)
+                new_data = np.array(old_data, dtype=float)
                 new_data[ii, :] = loc - (new_data[ii, :] - loc)
                 # NOTE: this returns a copy, so original `data` is *not* changed in-place
                 data = np.append(data, new_data, axis=-1)
-- 
2.43.0


From 667f335d19dd3d4ae9b9fc799e9c14aaa76f58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 06/51] fix: accept boolean reflect in KDE.density as
 documented

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index f12e59e..ec5eeaa 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -350,7 +350,7 @@ class KDE:
             reflect = self.reflect
 
         # Make sure `reflect` shape matches the data
-        if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
+        if (reflect is not None) and (not isinstance(reflect, bool)) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
                 reflect = np.atleast_2d(reflect)
-- 
2.43.0


From cd819d628c8acd191c81250290cf6b9f1cd69862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 07/51] fix: honour the documented params argument of density
 and pdf

---
 kalepy/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..4c89be3 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,8 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False,
+            params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +137,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From f003db6a90d2d640a7315b5e1cd8728dac68cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 08/51] fix: accept a bandwidth of documented shape (1,)

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index ec5eeaa..c235379 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -694,6 +694,8 @@ class KDE:
         bandwidth = np.zeros((ndim, ndim))
 
         if len(np.atleast_1d(bw_input)) == 1:
+            if not np.isscalar(bw_input):
+                bw_input = np.ravel(bw_input)[0]
             _bw, method = self._compute_bandwidth(bw_input)
             if not self._diagonal:
                 bandwidth[...] = _bw
-- 
2.43.0


From 4b916a6930443c0c1c06ecaf6a1cb79f6135c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 09/51] fix: sample_grid with scalar values for one dimensional
 grids

---
 kalepy/sample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..d1d020b 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -434,7 +434,10 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        if isinstance(samples, tuple):
+            samples = (samples[0].squeeze(),) + samples[1:]
+        else:
+            samples = samples.squeeze()
     return samples
 
 
-- 
2.43.0


From 6d27845550c38a62d4df8ca7a21d46e10f6842f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 10/51] fix: Corner does not update the caller's limits list

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..c1aef1c 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -247,7 +247,7 @@ class Corner:
         # If axes limits are given, set axes to them
         if limits is not None:
             limit_flag = False
-            _set_corner_axes_extrema(self.axes, limits, rotate)
+            limits = list(_set_corner_axes_extrema(self.axes, limits, rotate))
         # Otherwise, prepare to calculate limits during plotting
         else:
             limits = [None] * size
-- 
2.43.0


From 7ebd121fdadfaac694fd83fd737a2cce5a1e23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 11/51] fix: Corner methods keep their settings out of the
 dist1d and dist2d dicts given or defaulted

---
 kalepy/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c1aef1c..25eef5f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -297,6 +297,7 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
@@ -345,6 +346,7 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', False)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
@@ -428,6 +430,7 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', True)
         dist1d.setdefault('carpet', True)
@@ -529,6 +532,7 @@ class Corner:
 
         edges = utils.parse_edges(kde.dataset, edges=edges)
         # quantiles, _ = _default_quantiles(quantiles=quantiles)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('quantiles', quantiles)
         dist2d.setdefault('quantiles', quantiles)
         dist1d.setdefault('ls', ls)
-- 
2.43.0


From e34608d38908dfad3f6dbb7e13d5883c069ddf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 12/51] fix: use the data weights in Corner.hist,
 Corner.plot_data and dist1d confidence intervals

---
 kalepy/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 25eef5f..670d0a4 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -360,7 +360,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -636,6 +636,8 @@ class Corner:
         if data is None:
             # If either data or a KDE was given on initialization, `self._data` will be set
             data = self._data
+            if weights is None:
+                weights = self._weights
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
@@ -1104,8 +1106,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
 
     # Get both the lower (left) and upper (right) values of quantiles
@@ -1359,7 +1361,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 4ee5202534d05c4c105f754254b41c55e785f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 13/51] fix: Corner.target shades lower limits up to the upper
 end of the panel

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 670d0a4..af40173 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -854,7 +854,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From f8c768364771269864eff3ac2ce03f81fb555307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 14/51] fix: smooth histograms that are not upsampled

---
 kalepy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index af40173..7a72679 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1641,8 +1641,8 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
-            smooth *= upsample
+        if upsample not in [None, False]:
+            smooth = smooth * upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
     # Update edges based on pre-processing
-- 
2.43.0


From 0dcb3cca38f85ba4b615b103df32d94b121d1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 15/51] fix: histograms of weighted data with automatic bins

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..3206a26 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -299,7 +299,8 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
-        bins = 'auto'
+        # `np.histogram` does not choose bins for weighted data
+        bins = 'auto' if weights is None else np.histogram_bin_edges(data, bins='auto')
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From 3418162d0de826b5002a7ea846a8ec89182d3dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 16/51] fix: probability histograms of data given as a list

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 3206a26..511724c 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -305,7 +305,7 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     if density:
         hist = hist.astype(float) / np.diff(edges)
     if probability:
-        tot = data.size if (weights is None) else np.sum(weights)
+        tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
     return hist, edges
 
-- 
2.43.0


From a9addd9ffbf835f839eeb42470bcffd315806661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 17/51] fix: sample_grid_proportional passes the bin masses it
 is given

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index d1d020b..6f1ed95 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -445,7 +445,7 @@ def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kw
     scalar_dens = dens / portion
     # Avoid NaN values
     scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From e4aa49186bb91b6d9322ae0d5b7cba699275f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 18/51] fix: weights of the wrong length raise ValueError in
 Kernel.density

The message was built with np.shpae, which raised AttributeError instead.
---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index fca77e6..29b620a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -89,7 +89,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
-- 
2.43.0


From 0d64782dec84c6d2dc97e8f9de7ed1680b64fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 19/51] fix: inside() of every kernel accepts points of any
 number of dimensions

Gaussian.inside was a static method with a cls argument and could not be
called with points alone; the finite kernels used a chained comparison,
which fails on arrays.
---
 kalepy/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 29b620a..9807895 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -507,9 +507,9 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
-            shape = points.size
+            shape = np.shape(points)
         else:
             ndim, *shape = np.shape(points)
         return np.ones(shape, dtype=bool)
@@ -670,7 +670,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From 473d4a10a1e82194ae2990ee1e67a77f3eba14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 20/51] fix: box kernel samples use one radius per point

A separate radius was drawn for every coordinate, so samples in two or more
dimensions were concentrated towards the axes instead of uniform in the ball.
---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 9807895..6671379 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -545,8 +545,8 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
-            samps = norm * samps / rads[np.newaxis, :]
+            norm = np.random.random(size) ** (1.0 / ndim)
+            samps = norm[np.newaxis, :] * samps / rads[np.newaxis, :]
         return samps
 
     @staticmethod
-- 
2.43.0


From ac420d310072306b9fa126ba4f8a49a58c6f7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 21/51] fix: parabola kernel samples are isotropic in two or
 more dimensions

The product of one-dimensional parabolas was drawn, which reaches outside of the
unit ball and does not follow the density of the kernel.
---
 kalepy/kernels.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 6671379..0ad1784 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -578,6 +578,9 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _beta_kernel_sample(1, size, ndim)
+
         # Use the median trick to draw from the Epanechnikov distribution
         samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
         samp = np.median(samp, axis=-1)
@@ -695,6 +698,18 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _beta_kernel_sample(order, size, ndim):
+    """Draw samples from the beta kernels, `(1 - r^2)^order`, in the unit ball.
+
+    The direction is isotropic, and the squared radius follows a beta distribution.
+    """
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    rads = np.linalg.norm(samps, axis=0)
+    norm = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    samps = norm[np.newaxis, :] * samps / rads[np.newaxis, :]
+    return samps
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
-- 
2.43.0


From 3a7ea1dc7fd9f36153d558344d2058e0f43bde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 22/51] fix: triweight kernel samples follow the kernel in two
 or more dimensions

The radius was drawn from the one-dimensional kernel, and separately for every
coordinate.
---
 kalepy/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 0ad1784..74edd8c 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -612,6 +612,9 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _beta_kernel_sample(3, size, ndim)
+
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
         norm = _triweight_inverse_func(np.random.random((ndim, size)))
-- 
2.43.0


From 07a8914445613c0b403ca47ab3dce0cc29a53858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 23/51] fix: density at a single one-dimensional point has
 shape (1,)

The values were squeezed to a scalar while the points were returned as an array.
---
 kalepy/kde.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index c235379..59ac502 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -394,7 +394,6 @@ class KDE:
 
         if squeeze:
             points = points[0]
-            values = values.squeeze()
 
         return points, values
 
-- 
2.43.0


From 397df86fbfb3403859b4078b249067770b1581d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 24/51] fix: a single sample of one-dimensional data has shape
 (1,)

`resample(size=1)` is documented to return an array of shape (size,).
---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 74edd8c..358f940 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -166,7 +166,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples[0]
 
         return samples
 
-- 
2.43.0


From 21511744efe5c7149ddff9b9f575837a56f8b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 25/51] fix: a single kernel sample in one dimension has shape
 (1,)

---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 358f940..d0c8ee4 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -431,7 +431,7 @@ class _Distribution(abc.ABC):
 
         samps = cls._sample(size, ndim)
         if squeeze:
-            samps = samps.squeeze()
+            samps = samps.squeeze(axis=0) if (ndim == 1) else samps.squeeze()
 
         return samps
 
-- 
2.43.0


From 77c6a243a443c3324cf79f14f3a0f105d89b53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 26/51] fix: a single sample of a one-dimensional grid has
 shape (1,)

The number of weights or scalars returned with it has always been one.
---
 kalepy/sample.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 6f1ed95..426c851 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -435,9 +435,9 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
         if isinstance(samples, tuple):
-            samples = (samples[0].squeeze(),) + samples[1:]
+            samples = (_squeeze(samples[0]),) + samples[1:]
         else:
-            samples = samples.squeeze()
+            samples = _squeeze(samples)
     return samples
 
 
@@ -485,10 +485,15 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = _squeeze(vals)
     return vals, weights
 
 
+def _squeeze(vals):
+    """Convert one-dimensional samples from shape (1, N) to (N,), for any number of samples."""
+    return vals[0] if (len(vals) == 1) else vals.squeeze()
+
+
 def _grad_along(data_edge, dim):
     grad = np.diff(data_edge, axis=dim)
     nums = list(np.arange(grad.ndim))
-- 
2.43.0


From ac9795358d6d338f7056218b33792596b90b134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 27/51] fix: resampling with reflection uses the mirrored data
 points

---
 kalepy/kernels.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index d0c8ee4..5c7e298 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -329,8 +329,7 @@ class Kernel(object):
 
     def _truncate_reflections(self, data, bounds, weights=None):
         # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
+        trunc = self._get_truncation_bounds(bounds)
         # Find the data-points outside of those bounds
         idx = utils.bound_indices(data, trunc)
         # Select only points within truncation bounds
@@ -342,19 +341,16 @@ class Kernel(object):
         return data, weights
 
     def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
+        # Standard deviation (or half-width) of the kernel along each dimension
+        bw = np.sqrt(np.diagonal(self.matrix))
         # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
         if self.FINITE:
             bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
         # If kernel has infinite-support, go to the quantile reaching the desired precision
         else:
-            tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
+            bw = bw * sp.stats.norm.isf(_TRUNCATE_INFINITE_KERNELS / 2)
 
+        qnts = np.array([-bw, bw]).T
         # Expand the reflection bounds based on the bandwidth interval
         trunc = bounds + qnts
         return trunc
-- 
2.43.0


From 1cb00796536b4702b248a1ea73b304e85312414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 28/51] fix: keeping and reflecting different dimensions while
 resampling

---
 kalepy/kernels.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 5c7e298..0cac34f 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -214,9 +214,8 @@ class Kernel(object):
     def _resample_reflect(self, data, size, reflect, weights=None, keep=None):
         """Resample the given data using reflection.
         """
-        matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that no `keep` dimensions are also being reflected
+        utils.cov_keep_vars(self.matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -247,8 +246,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, keep=keep)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
-- 
2.43.0


From 69950455e7b3044b9b6d2fc51df62d0992c461d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 29/51] fix: automatic KDE points use the kernel width in the
 units of the data

---
 kalepy/kde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 59ac502..b022a61 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -646,9 +646,11 @@ class KDE:
         # `extrema` is already set to include preset `reflect` values and takes into account
         #   whether the kernel is finite or not (see `KDE.__init__`)
         extrema = self.extrema
+        # Use the width of the kernel in each dimension, in units of the data
+        bandwidth = np.diag(np.sqrt(self.kernel.matrix.diagonal()))
         points = utils.parse_edges(
             self.dataset, edges=self._points, extrema=extrema, weights=self.weights,
-            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=self.bandwidth)
+            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=bandwidth)
 
         # If input `data` to KDE is given as 1D array, then give 1D points (instead of `(1, E)`)
         if self._squeeze:
-- 
2.43.0


From ac9e939cb0ad70c0fce49aa03bc8b7d3e7524289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 30/51] fix: cdf is constant beyond its grid instead of
 extrapolated outside [0, 1]

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index b022a61..8738adf 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -524,6 +524,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        # The CDF is constant beyond the edges of the grid, where there is no support
+        grid = self._cdf_grid[0]
+        pnts = np.clip(pnts, [gg[0] for gg in grid], [gg[-1] for gg in grid])
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From 6fd1e105d05afa7f237e8842f8493448239e16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 31/51] fix: quantiles along any axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 511724c..1b2fceb 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -521,7 +521,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=(axis is not None))
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From 40bb0ceb980bcbdfee0848699ff6aad7ce751700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 32/51] fix: extrema of integer data are not truncated

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1b2fceb..df1aeea 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -384,7 +384,7 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
 
     # Find extrema
     idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data[idx]), np.max(data[idx])], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From 60c44d209fa52f0ea01357e4f3d2959650308d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 33/51] fix: recognise jagged sequences that numpy cannot
 convert

---
 kalepy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index df1aeea..44c23c6 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -590,9 +590,13 @@ def isjagged(arr):
     """Test if the given array is jagged.
     """
     # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
+    if np.isscalar(arr):
         return False
-    return True
+    # numpy cannot convert jagged sequences to (non-object) arrays
+    try:
+        return bool(np.size(arr) != flatlen(arr))
+    except ValueError:
+        return True
 
 
 def isinteger(val, iterable=True):
-- 
2.43.0


From 5f3b9f56401e073a08e33ed50e3ed26ea5a77797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 34/51] fix: the default bandwidth of KDE.from_hist is the bin
 width in the units of the data

---
 kalepy/kde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 8738adf..ed1b2c8 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -433,7 +433,9 @@ class KDE:
             hist = hist / (hist.sum() * dx)
 
             if bandwidth == 'bin width':
+                # The width is in units of the data already
                 bandwidth = dx
+                kwargs.setdefault('covariance', np.identity(1))
 
             return KDE(
                 dataset=points,
@@ -468,7 +470,9 @@ class KDE:
             points = [_.flatten() for _ in points]
 
             if bandwidth == 'bin width':
+                # The widths are in units of the data already
                 bandwidth = dxs
+                kwargs.setdefault('covariance', np.identity(len(dxs)))
 
             return KDE(
                 dataset=points,
-- 
2.43.0


From 2759e9cd7d98072d3612164836622e32c86f5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 35/51] fix: KDE.from_hist places points at the centers of bins
 of any widths

---
 kalepy/kde.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index ed1b2c8..47eeef8 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -426,8 +426,9 @@ class KDE:
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            dx = np.mean(np.diff(bins))
+            points = utils.midpoints(bins, log=False)
+            hist = np.asarray(hist)
 
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
@@ -455,14 +456,15 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                dx = np.mean(np.diff(bins_i))
+                centers_i = utils.midpoints(bins_i, log=False)
                 centers.append(centers_i)
 
                 dx_mult *= dx
                 dxs.append(dx)
 
             # Normalize into a pdf
+            hist = np.asarray(hist)
             hist = hist / (hist.sum() * dx_mult)
 
             # Transform into points
-- 
2.43.0


From a19a0434e9f794710ff48b9f1664cdaf8ff2a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 36/51] fix: pad only the integrated axis in utils.cumtrapz

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 44c23c6..ea33b51 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -288,7 +288,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From 48dd977bde1c49e70370c378fbcdb411c1c8d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 37/51] fix: compare the number of edges with the shape of the
 data before integrating

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index ea33b51..8aa6876 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -834,7 +834,7 @@ def trapz_nd(data, edges, axis=None):
     if np.isscalar(edges[0]):
         edges = np.atleast_2d(edges)
     shp = [len(ee) for ee in edges]
-    if not np.all(np.array(shp) == np.shape(data)):
+    if tuple(shp) != np.shape(data):
         err = "Shape of `edges` ({}) does not match data ({})!".format(shp, np.shape(data))
         raise ValueError(err)
 
@@ -890,7 +890,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     # Make sure the lengths of the `edges` array matches the shape of `pdf`
     shp_inn = np.array([len(ed) for ed in edges])
     ndim = len(shp_inn)
-    if not np.all(np.shape(pdf) == shp_inn):
+    if np.shape(pdf) != tuple(shp_inn):
         err = "Shape of pdf ({}) does not match edges ({})!".format(np.shape(pdf), shp_inn)
         raise ValueError(err)
 
-- 
2.43.0


From 0cb15a68e8b184e9f05967500ebc3971369d7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 38/51] fix: extend default edges by at least a bandwidth when
 there are few effective points

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 47eeef8..1f9c073 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -247,6 +247,8 @@ class KDE:
             out = sp.stats.norm.ppf(1.0 - 1.0/neff)
             # Extra to be double sure...
             out *= 1.2
+            # With very few effective points this can be arbitrarily small or negative
+            out = max(1.0, out)
 
         # Find the effective-extrema in each dimension, to be used if `extrema` is not specified
         _bandwidth = np.sqrt(self.kernel.matrix.diagonal())
-- 
2.43.0


From 7f750ec4062e5b03d293947e75df30bee7c164cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 39/51] fix: parse (2,) extrema with a None, and all-None
 extrema, in each dimension separately

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 8aa6876..32cfca5 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1241,13 +1241,13 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     else:
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
-            extrema = [extrema for ii in range(npars)]
+            extrema = [list(extrema) for ii in range(npars)]
         # If already (D, 2) we're good, keep going
         elif np.shape(np.array(extrema, dtype=object)) == (npars, 2):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or (np.shape(ee) == (2,)) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
-- 
2.43.0


From 2e5f8439571051a01483966c335f55e207f71bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 40/51] fix: accept `None` bounds of single dimensions in
 bound_indices, keep the indices boolean

---
 kalepy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 32cfca5..0b8f9c9 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -70,12 +70,13 @@ def bound_indices(data, bounds, outside=False):
     If `outside` is True, then indices for values *outside* of the bounds are returned.
     """
     data = np.atleast_2d(data)
-    bounds = np.atleast_2d(bounds)
+    if (bounds is None) or really1d(bounds):
+        bounds = [bounds]
     ndim, nvals = np.shape(data)
     idx = np.ones(nvals, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
+            idx = idx & (not outside)
             continue
 
         if outside:
-- 
2.43.0


From 1a0e403daa68ea32ab09f64d367ca009b61cfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 41/51] fix: remove the covariance of data with any number of
 dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 0b8f9c9..011509a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -648,7 +648,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.atleast_2d(np.cov(data))
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 74490f514f6a33f304f2ef7f8fb11d5cd3efbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 42/51] fix: return the previous extrema when there are no
 positive values

---
 kalepy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 011509a..93c33da 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -379,13 +379,17 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     if limit is not None:
         assert len(limit) == 2, "`limit` must have length 2."
 
+    # Select only positive elements, if desired
+    if positive:
+        data = np.asarray(data)
+        data = data[data > 0.0]
+
     # If there are no elements (left), return `prev` (`None` if not provided)
     if np.size(data) == 0:
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])], dtype=float)
+    minmax = np.array([np.min(data), np.max(data)], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From a29f1bbd42b0a29e572a322cfc3dd6dca027a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 43/51] fix: flatten arrays which are jagged in more than one
 level

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 93c33da..fc8c4e0 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -564,7 +564,7 @@ def really1d(arr):
     if len(arr) == 0:
         return True
     # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    if np.any([_ndim(tt) != 0 for tt in arr]):
         return False
 
     return True
-- 
2.43.0


From a3a17ed5f6c1eb8cb2b4cd3dc1ead50a87706c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 44/51] fix: draw the data of the chosen dimensions of dist2d
 in the order of `params`

---
 kalepy/plot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7a72679..23e5588 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1485,11 +1485,6 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             raise ValueError("`weights` of given `KDE` instance cannot be overridden!")
         kde = kde_data
         data = kde.dataset
-        ndim = np.shape(data)[0]
-        if ndim > 2:
-            if len(params) != 2:
-                raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
-            data = np.vstack([data[ii] for ii in params])
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
@@ -1500,6 +1495,12 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             logging.error(err)
             raise RuntimeError(err)
 
+    # Select the target dimensions, in the given order
+    if len(params) != 2:
+        raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
+    data = np.vstack([data[ii] for ii in params])
+    reflect = [kde.reflect[ii] for ii in params] if np.iterable(kde.reflect) else kde.reflect
+
     if ax is None:
         ax = plt.gca()
 
@@ -1515,7 +1516,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    edges = utils.parse_edges(data, edges=edges, extrema=reflect)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From 8aba0cf7e88ac7e10fb8080fe7ec0716cbef8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 45/51] fix: compare the weight, not the density, of histogram
 bins with that of an average data-point

---
 kalepy/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 23e5588..80063ea 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1761,12 +1761,18 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
 
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+
+    # Exclude bins with less weight than that of an average data-point
+    if mask_below is True:
+        counts, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        average = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_where(counts < 0.9 * average, hist)
+        mask_below = None
+
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From 20a99e3a3cb226055911d732a938e946bea45cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 46/51] fix: KDE.from_hist accepts a bandwidth array

---
 kalepy/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 1f9c073..1e4e4e0 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -435,7 +435,7 @@ class KDE:
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and bandwidth == 'bin width':
                 # The width is in units of the data already
                 bandwidth = dx
                 kwargs.setdefault('covariance', np.identity(1))
@@ -473,7 +473,7 @@ class KDE:
             points = np.meshgrid(*centers, indexing='ij')
             points = [_.flatten() for _ in points]
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and bandwidth == 'bin width':
                 # The widths are in units of the data already
                 bandwidth = dxs
                 kwargs.setdefault('covariance', np.identity(len(dxs)))
-- 
2.43.0


From e69679e027eba978a06779d42657ec1f3eb70bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 47/51] fix: KDE.from_hist passes positional arguments on to
 the constructor

---
 kalepy/kde.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 1e4e4e0..55ae95b 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -440,13 +440,7 @@ class KDE:
                 bandwidth = dx
                 kwargs.setdefault('covariance', np.identity(1))
 
-            return KDE(
-                dataset=points,
-                weights=hist,
-                bandwidth=bandwidth,
-                *args,
-                **kwargs
-            )
+            return KDE(points, bandwidth, hist, *args, **kwargs)
 
         # For multiple dimensions
         else:
@@ -478,13 +472,7 @@ class KDE:
                 bandwidth = dxs
                 kwargs.setdefault('covariance', np.identity(len(dxs)))
 
-            return KDE(
-                dataset=points,
-                weights=hist.flatten(),
-                bandwidth=bandwidth,
-                *args,
-                **kwargs
-            )
+            return KDE(points, bandwidth, hist.flatten(), *args, **kwargs)
 
     def pdf(self, *args, **kwargs):
         kwargs['probability'] = True
-- 
2.43.0


From 7e8bb1a302610166c7e379c716d944e48d0c7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 48/51] fix: fill unset elements of extrema selected by params

---
 kalepy/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fc8c4e0..4d78977 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1235,12 +1235,11 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     data_extrema = [minmax(dd) for dd in data]
     if extrema is not None:
         extrema = copy.deepcopy(extrema)
+        if (params is not None) and (len(extrema) != npars):
+            extrema = [extrema[pp] for pp in params]
 
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
-
     # Check components of given `extrema` to make sure they are valid
     #   fill in any `None` values with extrema from the data
     else:
-- 
2.43.0


From bfcb19fec29bb53126f064dfad83bac5087aae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 49/51] fix: extrema given as tuples may leave a bound unset

---
 kalepy/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 4d78977..2d81a5f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1261,10 +1261,8 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             raise ValueError(err)
 
         # Fill in `None` values and check if given `extrema` is out of bounds for data
+        extrema = [[None, None] if ee is None else list(ee) for ee in extrema]
         for dd in range(npars):
-            if extrema[dd] is None:
-                extrema[dd] = [None, None]
-
             for ii in range(2):
                 if extrema[dd][ii] is None:
                     extrema[dd][ii] = data_extrema[dd][ii]
-- 
2.43.0


From 21f06b35bcf1785b7ed14825e6705157815c9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 50/51] fix: quantiles of sorted 2D values with 2D weights

---
 kalepy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 2d81a5f..59912a8 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -518,6 +518,8 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if axis is None:
+        weights = weights.flatten()
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-- 
2.43.0


From ad47891bb647c8021c45de04108c2f43c57d9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 51/51] fix: trapz_dens_to_mass accepts negative axes

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 59912a8..48cca46 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -907,7 +907,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
 
     axis = np.atleast_1d(axis)
     axis_ndim = len(axis)
-    axis = sorted(axis)
+    axis = sorted([ax + ndim if ax < 0 else ax for ax in axis])
 
     # ---- Determine basic properties
 
-- 
2.43.0

