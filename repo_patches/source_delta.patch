From 129c9b6084420d70b9f14fcc65ee9c9fb18be693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 001/117] fix: bootstrap mean CI used the wrong discriminant in
 Fisher eq. (8.27)

---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..ceaa7ce 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1134,7 +1134,7 @@ def _circ_mean_ci_bootstrap(
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq (8.27)
 
     denom = np.sqrt(1 + beta_param**2)
@@ -1183,7 +1183,7 @@ def _circ_mean_resample(alpha, z0, v0):
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq(8.27)
 
     denom = np.sqrt(1 + beta_param**2)
-- 
2.43.0


From 528be1e7d918adc1732685fc58e9e56f3fe8df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 002/117] fix: circ_median of (nearly) coincident points must
 be wrapped and must not ignore the spread or the weights

---
 pycircstat2/descriptive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ceaa7ce..117f489 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -577,10 +577,10 @@ def circ_median(
 
     # edge cases for early exit
     # if all points coincide, return the first point
-    if np.isclose(circ_r(alpha, w), 1.0, atol=1e-12):
+    if np.isclose(circ_r(alpha, w), 1.0, rtol=0.0, atol=1e-12):
         if verbose:
-            print("All points coincide, returning the first point as median.")
-        return alpha[0]
+            print("All points coincide, returning their common direction as median.")
+        return circ_mean(alpha, w)
 
     # grouped data
     if not np.all(w == 1):
-- 
2.43.0


From 0b38b78109376937ff5eec2a04f88f95bf85b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 003/117] fix: geodesic circ_dist of angles more than one turn
 apart

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 117f489..761ac45 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1457,7 +1457,7 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(np.pi - np.abs(x - y) % (2 * np.pi))
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
-- 
2.43.0


From b2d21e101e00fa8de709ca549455f590bf0e5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 004/117] fix: circular mean deviation of angles more than one
 turn apart

---
 pycircstat2/descriptive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 761ac45..098ee96 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -773,7 +773,9 @@ def circ_mean_deviation_chunked(
     for start in range(0, beta_arr.size, chunk_size):
         stop = start + chunk_size
         beta_chunk = beta_arr[start:stop]
-        angdist = np.pi - np.abs(np.pi - np.abs(alpha_arr - beta_chunk[:, None]))
+        angdist = np.pi - np.abs(
+            np.pi - np.abs(alpha_arr - beta_chunk[:, None]) % (2 * np.pi)
+        )
         chunk_mean = np.round(np.mean(angdist, axis=1), 5)
         result[start : start + beta_chunk.size] = chunk_mean
 
@@ -823,7 +825,7 @@ def circ_mean_deviation(
     beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
 
     mean_dist = np.mean(
-        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None])),
+        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None]) % (2 * np.pi)),
         axis=1,
     )
     return np.round(np.pi - mean_dist, 5)
-- 
2.43.0


From 7d8786ec66eed33c1b70cbc18daa6d855cd9c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 005/117] fix: nonparametric_density_estimation of angles
 outside [0, 2pi)

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 098ee96..1191103 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1693,7 +1693,7 @@ def nonparametric_density_estimation(
     a = np.asarray(alpha, dtype=float)
     n = len(a)
     x = np.linspace(0, 2 * np.pi, 100)
-    d = np.abs(x[:, None] - a)
+    d = np.abs(x[:, None] - a) % (2 * np.pi)
     e = np.minimum(d, 2 * np.pi - d)
     e = np.minimum(e, h)
     weight_sum = np.sum((1 - e**2 / h**2) ** 2, axis=1)
-- 
2.43.0


From 4d8020e6ecf78c2bb429609913fb7964c4438e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 006/117] fix: circ_median_ci failed or returned the
 complementary arc when the sample straddles 0

---
 pycircstat2/descriptive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 1191103..c3c100c 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1265,7 +1265,9 @@ def circ_median_ci(
         )
 
     n = len(alpha)
-    alpha = np.sort(alpha)
+    # order the observations around the median, so that the cut of the circle
+    # at 0 never falls inside the interval
+    alpha = np.sort(angmod(np.asarray(alpha) - median + np.pi)) + (median - np.pi)
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
@@ -1286,7 +1288,7 @@ def circ_median_ci(
         if np.round(median, 5) in alpha.round(5):  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub > n:
+        if idx_ub >= n:
             idx_ub = idx_ub - n
 
         if idx_lb < 0:
-- 
2.43.0


From fd58174e29417d9c193718791a468ee4f7ef7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:43 +0000
Subject: [PATCH 007/117] fix: circ_r exceeded 1 by rounding, making the std of
 coincident points NaN

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index c3c100c..d0ed2d8 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -43,7 +43,8 @@ def circ_r(
         w = np.ones_like(alpha) if w is None else w
         Cbar, Sbar = compute_C_and_S(alpha, w)
 
-    r = np.sqrt(Cbar**2 + Sbar**2)
+    # rounding must not push the resultant of coincident points above 1
+    r = np.minimum(np.sqrt(Cbar**2 + Sbar**2), 1.0)
 
     return r
 
-- 
2.43.0


From ab05a659fc1d8b7f8ee68e38a0603c380e8328f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:03 +0000
Subject: [PATCH 008/117] fix: circ_kappa(r=0, n<=15) divided by zero

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index d0ed2d8..8eafa88 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1406,7 +1406,7 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
     if n is not None:
         if n <= 15 and r < 0.7:
             if kappa < 2:
-                kappa = np.max([kappa - 2 * 1 / (n * kappa), 0])
+                kappa = np.max([kappa - 2 * 1 / (n * kappa), 0]) if kappa > 0 else 0.0
             else:
                 kappa = (n - 1) ** 3 * kappa / (n**3 + n)
 
-- 
2.43.0


From b4f9d3c17b1a374ed41365bb5a16c719656099b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 009/117] fix: Circular() raised ValueError when its Rayleigh
 test and the one of the bootstrap CI disagreed

---
 pycircstat2/descriptive.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 8eafa88..db5856a 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1112,9 +1112,8 @@ def _circ_mean_ci_bootstrap(
     n = alpha_arr.size
     r = circ_r(alpha_arr)
 
-    # Classic Rayleigh test approximation, avoids import cycles
-    z_stat = n * r**2  # Rayleigh's Z
-    p_val = np.exp(-z_stat)  # p ≈ e^(−Z) (valid for n ≥ 10)
+    # Rayleigh test, same approximation as in `rayleigh_test` (avoids import cycles)
+    p_val = np.exp(np.sqrt(1 + 4 * n + 4 * (n**2 - (n * r) ** 2)) - (1 + 2 * n))
 
     if p_val > 0.05:  # Data look uniform ⇒ no identifiable mean direction
         raise ValueError(
-- 
2.43.0


From 71bf9568887d36e0439539dd17ab6b568c1202c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 010/117] fix: bootstrap mean CI ignored the frequencies of
 grouped data

---
 pycircstat2/descriptive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index db5856a..6ce9b1e 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -923,6 +923,8 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
+        if w is not None:
+            alpha = np.repeat(alpha, np.asarray(w).astype(int))
         (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
-- 
2.43.0


From f3d3d97ab8eeb9f2e432806826e768fc3bec66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 011/117] fix: Circular() removed entries from the caller's
 kwargs_mean_ci

---
 pycircstat2/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..7935639 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -183,6 +183,8 @@ class Circular:
             **kwargs.pop("kwargs_median", {}),
         }
         self.kwargs_mean_ci = kwargs_mean_ci = kwargs.pop("kwargs_mean_ci", None)
+        if kwargs_mean_ci is not None:  # do not modify the caller's dictionary
+            kwargs_mean_ci = dict(kwargs_mean_ci)
 
         # data
         self.data = data = np.array(data) if isinstance(data, list) else data
-- 
2.43.0


From b8b528abee0d67e53bf3fab8107e97853c612da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 012/117] fix: Circular(bins=...) silently dropped angles
 outside one cycle

---
 pycircstat2/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 7935639..d28c9e1 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -15,7 +15,7 @@ from .descriptive import (
     circ_std,
 )
 from .hypothesis import rayleigh_test
-from .utils import data2rad, rad2data, rotate_data, significance_code
+from .utils import angmod, data2rad, rad2data, rotate_data, significance_code
 from .visualization import circ_plot
 
 __names__ = ["Circular", "Axial"]
@@ -211,7 +211,7 @@ class Circular:
         else:
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
                 w, alpha = np.histogram(
-                    alpha, bins=bins, range=(0, 2 * np.pi)
+                    angmod(alpha), bins=bins, range=(0, 2 * np.pi)
                 )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
-- 
2.43.0


From 562600d3a5c19b0a41d2d3c58c23f060e8cc44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 013/117] fix: Circular.plot did not return the Axes it
 documents

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d28c9e1..3a6f23b 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -468,7 +468,7 @@ class Circular:
 
         See docstring of `circ_plot` for more examples and customization options.
         """
-        ax = circ_plot(self, ax=ax, config=config)
+        return circ_plot(self, ax=ax, config=config)
 
 
 class Axial(Circular):
-- 
2.43.0


From c2df883b71edaa7cf14ab8ea02fd15281f960f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 014/117] fix: Axial halved the mean but not the median

---
 pycircstat2/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 3a6f23b..aabe628 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -513,3 +513,7 @@ class Axial(Circular):
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
+        self.median = self.median / 2
+        if hasattr(self, "median_lb"):
+            self.median_lb = self.median_lb / 2
+            self.median_ub = self.median_ub / 2
-- 
2.43.0


From d2ebfac119f89aa89619d257def1ea739e7fdf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 015/117] fix: Axial ignored full_cycle unless the unit was a
 custom one

---
 pycircstat2/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index aabe628..98bea3a 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -487,14 +487,16 @@ class Axial(Circular):
         
         data = np.array(data) if isinstance(data, list) else data
         # doubling original data and reducing them modulo 360 degrees
-        if unit == "degree":
+        if full_cycle is not None:
+            data_double = 2 * data % full_cycle
+        elif unit == "degree":
             data_double = 2 * data % 360
         elif unit == "radian":
             data_double = 2 * data % (2 * np.pi)
         elif unit == "hour":
             data_double = 2 * data % 24
         else:
-            data_double = 2 * data % full_cycle
+            data_double = 2 * data  # rejected below: `full_cycle` is missing
 
         super().__init__(
             data=data_double,
-- 
2.43.0


From 79e2471a2628bb0daf8fabdf457218502db01f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:36 +0000
Subject: [PATCH 016/117] fix: bootstrap mean CI was replaced by its complement
 when the HDI did not contain the mean

---
 pycircstat2/descriptive.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 6ce9b1e..a0d5cb8 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1157,10 +1157,6 @@ def _circ_mean_ci_bootstrap(
     # Use HDI instead of the percentile method
     lb, ub = compute_hdi(bootstrap_samples, ci=ci)
 
-    mean_dir = circ_mean(bootstrap_samples)
-    if not is_within_circular_range(mean_dir, lb, ub):
-        lb, ub = ub, lb
-
     return float(lb), float(ub)
 
 
-- 
2.43.0


From 9d0ec5ad13bfc0dc32871cec1308ef8c3bd82cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:40 +0000
Subject: [PATCH 017/117] fix: plotting grouped data with a density raised
 KeyError('rlim_max')

---
 pycircstat2/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index da705cf..08d240b 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -357,10 +357,10 @@ def circ_plot(
             x = np.linspace(0, 2 * np.pi, 100)
             f = circ_data.mixture_opt.predict_density(x=x, unit="radian") + 1
             ax.plot(x, f, color="black", linestyle="-")
-            if config["rlim_max"] is None:
+            if config["radius"]["lim_max"] is None:
                 ax.set_ylim(0, f.max())
             else:
-                ax.set_ylim(0, config["rlim_max"])
+                ax.set_ylim(0, config["radius"]["lim_max"])
     else:
         w = circ_data.w
         config["radius"]["ticks"] = [1]  # overwrite
-- 
2.43.0


From 70129c5cd79e8e27235a321b57276b3d71c4fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:40 +0000
Subject: [PATCH 018/117] fix: plotting an object without median CI (grouped
 data, undefined median) raised AttributeError

---
 pycircstat2/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 08d240b..ca808a4 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -410,7 +410,7 @@ def circ_plot(
             zorder=5,
         )
 
-        if config["median"]["ci"]:
+        if config["median"]["ci"] and hasattr(circ_data, "median_lb"):
             if circ_data.median_lb < circ_data.median_ub:
                 x1 = np.linspace(circ_data.median_lb, circ_data.median_ub, num=50)
             else:
-- 
2.43.0


From d0c6ded2ed79e9bd93a0f232860a2cbf5c2c0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:40 +0000
Subject: [PATCH 019/117] fix: plotting grouped data without a fitted mixture
 model raised AttributeError

---
 pycircstat2/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index ca808a4..7ec1368 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -353,9 +353,11 @@ def circ_plot(
                         color="black",
                     )
 
-        if circ_data.grouped and config["density"]:
+        # the density of grouped data is that of the mixture model, if one was fitted
+        mixture = getattr(circ_data, "mixture_opt", None)
+        if circ_data.grouped and config["density"] and mixture is not None:
             x = np.linspace(0, 2 * np.pi, 100)
-            f = circ_data.mixture_opt.predict_density(x=x, unit="radian") + 1
+            f = mixture.predict_density(x=x, unit="radian") + 1
             ax.plot(x, f, color="black", linestyle="-")
             if config["radius"]["lim_max"] is None:
                 ax.set_ylim(0, f.max())
-- 
2.43.0


From 67745e1bed2aff0cdfa0637db2c084c4517a0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:32 +0000
Subject: [PATCH 020/117] fix: V_test returned NaN when the mean direction is
 undefined

---
 pycircstat2/hypothesis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..757e213 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -649,7 +649,10 @@ def V_test(
         raise ValueError("`r` must lie in the interval [0, 1].")
 
     R = n * r
-    V = R * np.cos(angmod(mean - angle, bounds=[-np.pi, np.pi]))  # eq(27.5)
+    if np.isnan(mean):  # no mean direction: the resultant has no component along `angle`
+        V = 0.0
+    else:
+        V = R * np.cos(angmod(mean - angle, bounds=[-np.pi, np.pi]))  # eq(27.5)
     u = V * np.sqrt(2.0 / n)  # eq(27.6)
     pval = float(norm.sf(u))
 
-- 
2.43.0


From 4808d45645159ebb3709cfa7129ea8abd0e67a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 021/117] fix: omnibus_test counted only one side of each
 diameter and gave p=0 for evenly split samples

---
 pycircstat2/hypothesis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 757e213..b9496f0 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -793,7 +793,8 @@ def omnibus_test(
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
 
-    lines = np.linspace(0.0, np.pi, scale * 360, endpoint=False)
+    # directed lines: both sides of each diameter are counted
+    lines = np.linspace(0.0, 2 * np.pi, scale * 720, endpoint=False)
     n = alpha.size
 
     lines_rotated = angmod(lines[:, None] - alpha)
@@ -831,8 +832,8 @@ def omnibus_test(
 
     denom = n - 2 * m
     if denom <= 0:
-        logp = -np.inf
-        pval = 0.0
+        # every diameter halves the sample: no evidence at all against uniformity
+        pval = 1.0
         A = np.inf
     else:
         logp = (
-- 
2.43.0


From 80a58a618f42cc824bc0e83bae11224d6d57e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 022/117] fix: watson_u2_test failed on unsorted samples and on
 angles outside [0, 2pi)

---
 pycircstat2/hypothesis.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index b9496f0..1df40eb 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1101,30 +1101,20 @@ def watson_u2_test(
     P639-640, Section 27.5, Example 27.10 of Zar, 2010
     """
 
-    from scipy.stats import rankdata
-
     normalized = _coerce_circular_samples(samples)
     if len(normalized) != 2:
         raise ValueError("`watson_u2_test` requires exactly two samples.")
 
-    def cumfreq(alpha_unique: np.ndarray, sample: _CircularSample) -> np.ndarray:
-        expanded = sample.expand()
+    def cumfreq(alpha_unique: np.ndarray, expanded: np.ndarray) -> np.ndarray:
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
-        idx = [np.where(np.isclose(alpha_unique, val, atol=1e-10))[0] for val in expanded]
-        idx = np.concatenate(idx)
-        idx = np.hstack([0, idx, alpha_unique.size])
-
-        freq_cumsum = rankdata(expanded, method="max") / sample.n
-        freq_cumsum = np.hstack([0, freq_cumsum])
+        # empirical distribution function at every distinct angle
+        return np.searchsorted(np.sort(expanded), alpha_unique, side="right") / expanded.size
 
-        tiles = np.diff(idx)
-        return np.repeat(freq_cumsum, tiles)
-
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [angmod(sample.expand()) for sample in normalized]
     a, t = np.unique(np.hstack(expanded_samples), return_counts=True)
-    cfs = [cumfreq(a, sample) for sample in normalized]
+    cfs = [cumfreq(a, expanded) for expanded in expanded_samples]
     d = np.diff(cfs, axis=0)
 
     N = sum(sample.n for sample in normalized)
-- 
2.43.0


From 3f706e92c9eef85971e14f1337281bd2bda16032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 023/117] fix: p-value of watson_u2_test exceeded 1

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 1df40eb..677f923 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1123,7 +1123,7 @@ def watson_u2_test(
         / N**2
         * (np.sum(t * d**2) - np.sum(t * d) ** 2 / N)
     )
-    pval = 2 * np.exp(-19.74 * U2)
+    pval = min(2 * np.exp(-19.74 * U2), 1.0)
     # Approximated P-value from Watson (1961)
     # https://github.com/pierremegevand/watsons_u2/blob/master/watsons_U2_approx_p.m
 
-- 
2.43.0


From 1d52756289bb06efffb06104a57ecbbc4744c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 024/117] fix: wheeler_watson_test failed on nearly equal
 angles and ranked angles outside [0, 2pi) wrongly

---
 pycircstat2/hypothesis.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 677f923..218d40f 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1176,18 +1176,15 @@ def wheeler_watson_test(
 
     normalized = _coerce_circular_samples(samples)
 
-    def get_circrank(alpha: np.ndarray, sample: _CircularSample, N: int) -> np.ndarray:
-        expanded = sample.expand()
-        rank_of_direction = (
-            np.squeeze([np.where(np.isclose(alpha, value))[0] for value in expanded]) + 1
-        )
+    def get_circrank(alpha: np.ndarray, expanded: np.ndarray, N: int) -> np.ndarray:
+        rank_of_direction = np.searchsorted(alpha, expanded) + 1
         return 2 * np.pi / N * rank_of_direction
 
     N = sum(sample.n for sample in normalized)
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [angmod(sample.expand()) for sample in normalized]
     a, _ = np.unique(np.hstack(expanded_samples), return_counts=True)
 
-    circ_ranks = [get_circrank(a, sample, N) for sample in normalized]
+    circ_ranks = [get_circrank(a, expanded, N) for expanded in expanded_samples]
 
     k = len(circ_ranks)
 
-- 
2.43.0


From 17e5ac293d0ff5a4f6d95ebcb7335e1b13c9b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 025/117] fix: wallraff_test ignored the frequencies of grouped
 samples

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 218d40f..9d29f80 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1260,7 +1260,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
-- 
2.43.0


From 1dd83b92716489b05e0b69665a94b6636e34fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 026/117] fix: angular_randomisation_test ignored the
 frequencies of grouped samples

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 9d29f80..a5b3f5d 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1475,7 +1475,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [np.asarray(sample.expand(), dtype=float) for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From 54f9d6f4ca642556b451ca4060793bf15c4268ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 027/117] fix: kuiper_test of angles outside [0, 2pi)

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index a5b3f5d..700af28 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1611,7 +1611,7 @@ def kuiper_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_V(sample):
-        ordered = np.sort(sample) / (2 * np.pi)
+        ordered = np.sort(angmod(sample)) / (2 * np.pi)
         n = ordered.size
         indices = np.arange(1, n + 1, dtype=float)
 
-- 
2.43.0


From 83e8e5bdf6db11729608d951910d98ea2a59f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 028/117] fix: watson_test of angles outside [0, 2pi)

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 700af28..4aea50f 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1719,7 +1719,7 @@ def watson_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_U2(sample):
-        ordered = np.sort(sample)
+        ordered = np.sort(angmod(sample))
         n = ordered.size
         indices = np.arange(1, n + 1, dtype=float)
 
-- 
2.43.0


From d03be63f499b96bf30e8a1e8f702b9a4cadd7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 029/117] fix: rao_spacing_test of angles outside [0, 2pi)

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 4aea50f..e0af4a9 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1817,7 +1817,7 @@ def rao_spacing_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_U(sample):
-        ordered = np.sort(sample)
+        ordered = np.sort(angmod(sample))
         n_local = ordered.size
         spacings = np.hstack([ordered[1:] - ordered[:-1], 2 * np.pi - ordered[-1] + ordered[0]])
         return 0.5 * np.sum(np.abs(spacings - (2 * np.pi / n_local)))
-- 
2.43.0


From b67dfcb6ebc0fcf111d4f2f694df8ce63c9efa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 030/117] fix: asymptotic p-value of kuiper_test left [0, 1]

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index e0af4a9..248d1a0 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1641,7 +1641,7 @@ def kuiper_test(
         a2 = np.exp(-2 * m * Vo**2)
         b1 = 2 * (a1 - 1) * a2
         b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
-        pval = float(np.sum(b1 - b2))
+        pval = float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 3a3378bef745d6239cf4a42f3aae5e9ae0363f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 031/117] fix: signed distance of an angle to itself was not
 exactly zero

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index a0d5cb8..cde8ee5 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1456,7 +1456,7 @@ def circ_dist(
         )
 
     if metric == "center":
-        distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
+        distances = np.angle(np.exp(1j * (x - y)))
 
     elif metric == "geodesic":
         distances = np.pi - np.abs(np.pi - np.abs(x - y) % (2 * np.pi))
-- 
2.43.0


From 7f0dfe3394257c960040370683a00e43b3231237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 032/117] fix: common_median_test put the observation at the
 median on a side by rounding

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 248d1a0..9fc1f5d 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2701,7 +2701,8 @@ def common_median_test(
     m = np.zeros(k, dtype=float)
     for i, group in enumerate(arrays):
         deviations = circ_dist(group, common_median)
-        m[i] = np.sum(deviations < 0)
+        # an observation at the median is on neither side, whatever its rounding
+        m[i] = np.sum((deviations < 0) & ~np.isclose(deviations, 0.0))
 
     # Compute test statistic
     M = np.sum(m)
-- 
2.43.0


From 44005c214181ed2a8a9ed1c5d981c2315286d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 033/117] fix: binomial_test counted angles equal to the
 median, up to rounding, as different

---
 pycircstat2/hypothesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 9fc1f5d..9978d3b 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1990,6 +1990,7 @@ def binomial_test(
     d = circ_dist(alpha, float(md))
 
     # Count the number of angles on each side of the hypothesized median
+    d = np.where(np.isclose(d, 0.0), 0.0, d)  # angles at the median, up to rounding
     n1 = int(np.sum(d < 0))
     n2 = int(np.sum(d > 0))
     n_eff = int(n1 + n2)
-- 
2.43.0


From ca6ae16678108c11e97f0aa8891fa52adc0577a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 034/117] fix: symmetry_test ranked the observation at the
 median by its rounding error

---
 pycircstat2/hypothesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 9978d3b..6eec554 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -949,6 +949,7 @@ def symmetry_test(
         median = float(median)
 
     d = angmod(alpha - median, bounds=[-np.pi, np.pi])
+    d = np.where(np.isclose(d, 0.0), 0.0, d)  # the median itself, up to rounding
 
     res = wilcoxon(d, alternative="two-sided")
     test_statistic = float(res.statistic)
-- 
2.43.0


From 55892f864ef234de948bb6c3088d81c07a3d411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:09 +0000
Subject: [PATCH 035/117] fix: circ_range_test p-value lost all precision for
 large, evenly spread samples

---
 pycircstat2/hypothesis.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6eec554..adb1720 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1,5 +1,6 @@
 import math
 import warnings
+from decimal import Decimal, localcontext
 from dataclasses import dataclass
 from typing import Any, Optional, Sequence, Union
 
@@ -1930,6 +1931,17 @@ def circ_range_test(alpha: np.ndarray, verbose: bool = False) -> CircularRangeTe
         * (1 - index * (1 - range_stat / (2 * np.pi))) ** (n - 1)
     )
     p_value = float(np.sum(sequence))
+    if not np.all(np.isfinite(sequence)) or np.max(np.abs(sequence)) > 1e3:
+        # the alternating terms cancel beyond double precision (very even, large samples)
+        with localcontext() as ctx:
+            ctx.prec = 50 + n // 2
+            gap = Decimal(1 - range_stat / (2 * np.pi))
+            p_value = float(
+                sum(
+                    (-1) ** (k - 1) * math.comb(n, k) * (1 - k * gap) ** (n - 1)
+                    for k in range(1, stop + 1)
+                )
+            )
 
     result = CircularRangeTestResult(range_stat=float(range_stat), pval=float(p_value))
 
-- 
2.43.0


From 2102f530e940a792369edea965d6c61f38c97447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 036/117] fix: angular_randomisation_test missed permutations
 tied with the observed statistic up to rounding

---
 pycircstat2/hypothesis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index adb1720..0859714 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1538,8 +1538,9 @@ def angular_randomisation_test(
         # Compute test statistic for this permutation
         perm_stat = art_statistic(perm_S1, perm_S2)
 
-        # Count if permuted statistic is >= observed (one-sided test)
-        if perm_stat >= observed_stat:
+        # Count if permuted statistic is >= observed (one-sided test); permutations
+        # within the groups give the observed statistic up to rounding
+        if perm_stat >= observed_stat or np.isclose(perm_stat, observed_stat, rtol=1e-12, atol=1e-12):
             n_extreme += 1
 
     # Compute p-value as in equation (4.3)
-- 
2.43.0


From 70a258761b68f2b9543468ea9cf451b9eb751e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:56 +0000
Subject: [PATCH 037/117] fix: harrison_kanji_test raised TypeError for factors
 with string labels

---
 pycircstat2/hypothesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 0859714..ebf6104 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2414,12 +2414,12 @@ def harrison_kanji_test(
     # Factor A
     gr = df.groupby(fn[0])
     pn = gr.count()["dependent"]
-    pr = gr.agg(circ_r)["dependent"] * pn
+    pr = gr["dependent"].agg(circ_r) * pn
 
     # Factor B
     gr = df.groupby(fn[1])
     qn = gr.count()["dependent"]
-    qr = gr.agg(circ_r)["dependent"] * qn
+    qr = gr["dependent"].agg(circ_r) * qn
 
     if kk > 2:  # Large kappa approximation
         eff_1 = sum(pr**2 / np.sum(cn, axis=1)) - tr**2 / n
-- 
2.43.0


From 3668d174b1fc7737a22453e56b394e7dd8d9348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 038/117] fix: Jones-Pewsey normalising constant must not use
 lpmv outside its domain

---
 pycircstat2/distributions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..0e725c1 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -18,7 +18,6 @@ from scipy.special import (
     betaincinv,
     gammaln,
     digamma,
-    lpmv,
     logsumexp,
 )
 from scipy.stats import rv_continuous
@@ -5426,7 +5425,7 @@ def _c_jonespewsey(mu, kappa, psi):
         return 1.0 / (2.0 * np.pi * i0(kappa))
 
     constant = _jp_legendre_normalizer(kappa, psi)
-    if np.isfinite(constant) and 1e-12 <= constant <= 1e6:
+    if np.isfinite(constant) and constant > 0.0:
         return constant
 
     integral = quad_vec(
@@ -5446,17 +5445,20 @@ def _jp_legendre_normalizer(kappa, psi):
     except ZeroDivisionError:
         return np.nan
 
+    # 2*pi*P_nu(cosh A), with the half-angle substitution tan(phi/2) = exp(s):
+    # the integrand cosh(s - A)**nu / cosh(s)**(nu + 1) is analytic and decays at
+    # both ends, so that the trapezoidal rule converges geometrically.
+    # (scipy's `lpmv` is only defined for arguments in [-1, 1].)
     A = kappa * psi
-    z = np.cosh(A)
-    try:
-        legendre = lpmv(0, nu, z)
-    except ValueError:
-        return np.nan
+    s = np.linspace(min(0.0, A) - 40.0, max(0.0, A) + 40.0, 4097)
+    log_integrand = nu * _log_cosh(s - A) - (nu + 1.0) * _log_cosh(s)
+    log_integral = np.log(2.0) + logsumexp(log_integrand) + np.log(s[1] - s[0])
+    return float(np.exp(-log_integral))
 
-    if not np.isfinite(legendre) or legendre <= 0.0:
-        return np.nan
 
-    return 1.0 / (2.0 * np.pi * legendre)
+def _log_cosh(x):
+    abs_x = np.abs(x)
+    return abs_x + np.log1p(np.exp(-2.0 * abs_x)) - np.log(2.0)
 
 
 ###########################
-- 
2.43.0


From 8fdab7501210377f92e550238f5a31734d8f3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 039/117] fix: inverse_batschelet density was discontinuous at
 the antimode

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 0e725c1..de0a90b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7344,7 +7344,7 @@ def _tnu(x, nu, xi):
                 y_val = solution.root
             else:  # pragma: no cover - defensive fallback
                 y_val = phi_val
-            results[idx] = (y_val + np.pi) % (2.0 * np.pi) - np.pi
+            results[idx] = y_val
 
     if scalar_input:
         return float(results[0])
@@ -7373,7 +7373,7 @@ def _slmbdinv(x, lmbd):
                 u_val = solution.root
             else:  # pragma: no cover - defensive fallback
                 u_val = val
-            result[idx] = (u_val + np.pi) % (2.0 * np.pi) - np.pi
+            result[idx] = u_val
 
     if scalar_input:
         return float(result[0])
-- 
2.43.0


From 6cebaa0888641dd22d5fbb9dcc9e7e07dbd49f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 040/117] fix: wrapnorm density was wrong, even negative, for
 highly concentrated data

---
 pycircstat2/distributions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index de0a90b..4a1ded5 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2293,11 +2293,14 @@ class wrapnorm_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (
-            1
-            + 2
-            * np.sum([rho ** (p**2) * np.cos(p * (x - mu)) for p in range(1, 30)], 0)
-        ) / (2 * np.pi)
+        return np.exp(self._logpdf(x, mu, rho))
+
+    def _logpdf(self, x, mu, rho):
+        diff = np.mod(np.asarray(x, dtype=float) - mu + np.pi, 2.0 * np.pi) - np.pi
+        variance = -2.0 * np.log(rho)
+        n_wraps = int(np.ceil(6.5 * np.sqrt(np.max(variance, initial=0.0)) / (2.0 * np.pi))) + 1
+        exponents = [-0.5 * (diff + 2.0 * np.pi * k) ** 2 / variance for k in range(-n_wraps, n_wraps + 1)]
+        return logsumexp(exponents, axis=0) - 0.5 * np.log(2.0 * np.pi * variance)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From aa4a6a2a54fa837c1618e0470c59be3829e64fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 041/117] fix: vonmises overflowed to nan for kappa above 709

---
 pycircstat2/distributions.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 4a1ded5..aa68da4 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -11,9 +11,10 @@ from scipy.special import (
     i0,
     i0e,
     i1,
+    i1e,
     ndtr,
     ndtri,
-    iv,
+    ive,
     betainc,
     betaincinv,
     gammaln,
@@ -3328,7 +3329,7 @@ class vonmises_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, kappa):
-        return np.exp(kappa * np.cos(x - mu)) / (2 * np.pi * i0(kappa))
+        return np.exp(kappa * (np.cos(x - mu) - 1.0)) / (2 * np.pi * i0e(kappa))
 
     def pdf(self, x, mu, kappa, *args, **kwargs):
         r"""
@@ -3355,7 +3356,7 @@ class vonmises_gen(CircularContinuous):
         return super().pdf(x, mu, kappa, *args, **kwargs)
 
     def _logpdf(self, x, mu, kappa):
-        return kappa * np.cos(x - mu) - np.log(2 * np.pi * i0(kappa))
+        return kappa * (np.cos(x - mu) - 1.0) - np.log(2 * np.pi * i0e(kappa))
 
     def logpdf(self, x, mu, kappa, *args, **kwargs):
         """
@@ -3407,7 +3408,7 @@ class vonmises_gen(CircularContinuous):
             result[np.isclose(arr, two_pi)] = 1.0
             return result
 
-        denom = i0(kappa_val)
+        denom = i0e(kappa_val)
         if not np.isfinite(denom) or denom == 0.0:
             return self._cdf_from_pdf(x, mu, kappa)
 
@@ -3421,7 +3422,7 @@ class vonmises_gen(CircularContinuous):
         converged = False
 
         for n in range(1, max_terms + 1):
-            coeff = iv(n, kappa_val) / (denom * n)
+            coeff = ive(n, kappa_val) / (denom * n)
             if not np.isfinite(coeff):
                 continue
 
@@ -3540,7 +3541,7 @@ class vonmises_gen(CircularContinuous):
         theta_curr = theta.copy()
         for _ in range(max_iter):
             cdf_vals = np.asarray(self.cdf(theta_curr, mu_val, kappa_val), dtype=float)
-            pdf_vals = np.exp(kappa_val * np.cos(theta_curr - mu_val)) / (2.0 * np.pi * i0(kappa_val))
+            pdf_vals = self._pdf(theta_curr, mu_val, kappa_val)
             delta = cdf_vals - q_clipped
 
             L = np.where(delta <= 0.0, theta_curr, L)
@@ -3724,7 +3725,7 @@ class vonmises_gen(CircularContinuous):
             The circular variance, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return 1 - i1(kappa) / i0(kappa)
+        return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
         """
@@ -3736,7 +3737,7 @@ class vonmises_gen(CircularContinuous):
             The circular standard deviation, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        r = i1(kappa) / i0(kappa)
+        r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
 
@@ -3841,7 +3842,7 @@ class vonmises_gen(CircularContinuous):
                 return np.inf
             cos_term = np.cos(x - mu_param)
             sum_cos = np.sum(w * cos_term)
-            log_i0_val = np.log(i0(kappa_param))
+            log_i0_val = np.log(i0e(kappa_param)) + kappa_param
             return float(
                 -kappa_param * sum_cos + w_sum * (np.log(2.0 * np.pi) + log_i0_val)
             )
@@ -3852,7 +3853,7 @@ class vonmises_gen(CircularContinuous):
             sin_term = np.sin(x - mu_param)
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
-            ratio = i1(kappa_param) / i0(kappa_param)
+            ratio = i1e(kappa_param) / i0e(kappa_param)
             g_mu = kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
-- 
2.43.0


From cd3b97a8b38ad8f0fb7d3908c0255ee1ef9a280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 042/117] fix: vonmises.fit used the wrong sign for the
 gradient in mu

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index aa68da4..a055962 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3854,7 +3854,7 @@ class vonmises_gen(CircularContinuous):
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
             ratio = i1e(kappa_param) / i0e(kappa_param)
-            g_mu = kappa_param * sum_sin
+            g_mu = -kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
 
-- 
2.43.0


From 59cb76e026449aaa4345fd865621d2b4800235f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 043/117] fix: vonmises.entropy had the sign of the log
 normaliser reversed

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a055962..cf5f38d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3751,7 +3751,7 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return -np.log(i0(kappa)) + (kappa * i1(kappa)) / i0(kappa)
+        return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - i1e(kappa) / i0e(kappa))
 
     def _nnlf(self, theta, data):
         """
-- 
2.43.0


From c857959c14cdac8b44df501f1ee5bb55c1c7dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 044/117] fix: cdf of cartwright, wrapnorm and wrapcauchy
 rejected arrays of angles

---
 pycircstat2/distributions.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index cf5f38d..af6419c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -203,6 +203,14 @@ class CircularContinuous(rv_continuous):
             return None, None
         return lower, period
 
+    @staticmethod
+    def _constant_shape_value(value, dist_name):
+        # scipy broadcasts the shape parameters against the evaluation points
+        arr = np.asarray(value, dtype=float).reshape(-1)
+        if arr.size == 0 or np.any(arr != arr[0]):
+            raise ValueError(f"{dist_name} parameters must be scalar-valued.")
+        return float(arr[0])
+
     def _wrap_angles(self, values):
         if self._period is None or self._lower_bound is None:
             return values
@@ -1848,13 +1856,8 @@ class cartwright_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
-            raise ValueError("cartwright parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = self._constant_shape_value(mu, "cartwright")
+        zeta_val = self._constant_shape_value(zeta, "cartwright")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2385,13 +2388,8 @@ class wrapnorm_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
-            raise ValueError("wrapnorm parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = self._constant_shape_value(mu, "wrapnorm")
+        rho_val = self._constant_shape_value(rho, "wrapnorm")
         two_pi = 2.0 * np.pi
 
         if rho_val <= 1e-12:
@@ -2915,14 +2913,8 @@ class wrapcauchy_gen(CircularContinuous):
         arr = np.asarray(wrapped, dtype=float)
         flat = arr.reshape(-1)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = self._constant_shape_value(mu, "wrapcauchy")
+        rho_val = self._constant_shape_value(rho, "wrapcauchy")
         rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
 
         if flat.size == 0:
-- 
2.43.0


From eb749b73e6598afae0f5ae0cc78163c7749e69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 045/117] fix: ppf silently used only the first element of
 array-valued shape parameters

---
 pycircstat2/distributions.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index af6419c..2b49f2e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1471,11 +1471,8 @@ class cardioid_gen(CircularContinuous):
         return result
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._constant_shape_value(mu, "cardioid"), 2.0 * np.pi))
+        rho_val = self._constant_shape_value(rho, "cardioid")
         if not (0.0 <= rho_val <= 0.5):
             raise ValueError("`rho` must lie in [0, 0.5].")
 
@@ -1921,11 +1918,8 @@ class cartwright_gen(CircularContinuous):
         return super().cdf(x, mu, zeta, *args, **kwargs)
 
     def _ppf(self, q, mu, zeta):
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._constant_shape_value(mu, "cartwright"), 2.0 * np.pi))
+        zeta_val = self._constant_shape_value(zeta, "cartwright")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2444,11 +2438,8 @@ class wrapnorm_gen(CircularContinuous):
         return super().cdf(x, mu, rho, *args, **kwargs)
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._constant_shape_value(mu, "wrapnorm"), 2.0 * np.pi))
+        rho_val = self._constant_shape_value(rho, "wrapnorm")
         two_pi = 2.0 * np.pi
 
         q_arr = np.asarray(q, dtype=float)
@@ -2973,11 +2964,8 @@ class wrapcauchy_gen(CircularContinuous):
         return float(H) if np.isscalar(phi) else H
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._constant_shape_value(mu, "wrapcauchy"), 2.0 * np.pi))
+        rho_val = self._constant_shape_value(rho, "wrapcauchy")
         if not (0.0 <= rho_val < 1.0):
             raise ValueError("`rho` must lie in [0, 1).")
 
@@ -3480,11 +3468,8 @@ class vonmises_gen(CircularContinuous):
         return super().cdf(x, mu, kappa, *args, **kwargs)
 
     def _ppf(self, q, mu, kappa):
-        mu_arr = np.asarray(mu, dtype=float)
-        kappa_arr = np.asarray(kappa, dtype=float)
-        
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        kappa_val = float(kappa_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._constant_shape_value(mu, "vonmises"), 2.0 * np.pi))
+        kappa_val = self._constant_shape_value(kappa, "vonmises")
         if kappa_val < 0.0:
             raise ValueError("`kappa` must be non-negative.")
 
-- 
2.43.0


From c82e69a2bb07b2abcac585bdbc907d7488c19010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 046/117] fix: jonespewsey_sineskewed cdf and ppf ignored xi
 and lmbd for kappa below 1e-3

---
 pycircstat2/distributions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2b49f2e..75ceac8 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5556,10 +5556,11 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
 
         if kappa_val < _JP_KAPPA_TOL:
+            phi_start = (-xi_val) % two_pi
             phi = (flat - xi_val) % two_pi
-            base = phi / two_pi
-            skew = (1.0 - np.cos(phi)) / (2.0 * np.pi)
-            cdf = base + lmbd_val * skew
+            base = (phi - phi_start) / two_pi
+            skew = (np.cos(phi_start) - np.cos(phi)) / (2.0 * np.pi)
+            cdf = np.where(phi >= phi_start, base, 1.0 + base) + lmbd_val * skew
             return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
 
         if abs(psi_val) < _JP_PSI_TOL and abs(lmbd_val) < 1e-12:
@@ -5634,9 +5635,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 q_int = q_valid[interior]
                 eps = 1e-15
                 q_clipped = np.clip(q_int, eps, 1.0 - eps)
-                if kappa_val < _JP_KAPPA_TOL:
-                    theta_vals[interior] = two_pi * q_clipped
-                elif abs(lmbd_val) < 1e-12:
+                if abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = jonespewsey.ppf(
                         q_clipped, mu=xi_val, kappa=kappa_val, psi=psi_val
                     )
-- 
2.43.0


From 969dc669ce9932008861f7cfea977668806eb431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 047/117] fix: inverse_batschelet.pdf changed after a call of
 cdf

---
 pycircstat2/distributions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 75ceac8..cb7596d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7263,8 +7263,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From 365118b8d0b1c92dad1d430e9bc0847a851bda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 048/117] fix: katojones.cdf was uniform for rho = 0

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index cb7596d..81bace3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8640,7 +8640,7 @@ class katojones_gen(CircularContinuous):
         return cache[key]
 
     def _compute_series_terms(self, mu, gamma, rho, lam):
-        if gamma <= _KJ_GAMMA_TOL or rho <= _KJ_GAMMA_TOL:
+        if gamma <= _KJ_GAMMA_TOL:
             return {
                 "coeffs": np.empty(0, dtype=float),
                 "phases": np.empty(0, dtype=float),
-- 
2.43.0


From 404cc35bdd562cd4b89b295b086f04ce910ec6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 049/117] fix: cdf of flat-topped von Mises and inverse
 Batschelet fell from 1 to 0 in the far tail

Whether an angle lies past the wrap point was decided by the sign of a
difference of interpolated cdf values, which rounding can make negative when
there is practically no mass left; compare the angles instead.
---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 81bace3..0e81cdf 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4024,7 +4024,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             phi_start = ((-mu_val + np.pi) % two_pi) - np.pi
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
-            cdf_flat = np.where(H < H_start, H - H_start + 1.0, H - H_start)
+            cdf_flat = np.where(phi < phi_start, H - H_start + 1.0, H - H_start)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
@@ -6655,7 +6655,7 @@ class inverse_batschelet_gen(CircularContinuous):
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
             diff = H - H_start
-            cdf_flat = np.where(diff < 0.0, diff + 1.0, diff)
+            cdf_flat = np.where(phi < phi_start, diff + 1.0, diff)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
-- 
2.43.0


From 0c30d341dad1ae82917ad784201e03b93f72ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 050/117] fix: cdf was 1 (and ppf 2*pi) on the last 6e-5
 radians before the full turn

np.isclose's default relative tolerance of 1e-5 was applied when comparing
angles with 2*pi and probabilities with 1.
---
 pycircstat2/distributions.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 0e81cdf..ac03654 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1888,10 +1888,10 @@ class cartwright_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        result[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, zeta, *args, **kwargs):
@@ -2390,9 +2390,9 @@ class wrapnorm_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         rho_clipped = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
@@ -2401,10 +2401,10 @@ class wrapnorm_gen(CircularContinuous):
         cdf_flat, _ = self._wrapnorm_cdf_pdf(flat, mu_val, sigma)
         if arr.ndim == 0:
             value = float(cdf_flat.reshape(-1)[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf_flat.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -2930,9 +2930,9 @@ class wrapcauchy_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
         reshaped = cdf.reshape(arr.shape)
-        reshaped[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        reshaped[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return reshaped
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -3383,9 +3383,9 @@ class vonmises_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         denom = i0e(kappa_val)
@@ -3428,10 +3428,10 @@ class vonmises_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, kappa, *args, **kwargs):
@@ -7601,7 +7601,7 @@ class wrapstable_gen(CircularContinuous):
         # Ensure exact endpoints
         two_pi = 2.0 * np.pi
         cdf_vals[np.isclose(theta_flat[0], 0.0, atol=1e-12)] = 0.0
-        cdf_vals[np.isclose(theta_flat[0], two_pi, atol=1e-12)] = 1.0
+        cdf_vals[np.isclose(theta_flat[0], two_pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_vals.reshape(-1)[0])
@@ -8201,7 +8201,7 @@ class katojones_gen(CircularContinuous):
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
-        cdf_flat[np.isclose(flat, 2.0 * np.pi, atol=1e-12)] = 1.0
+        cdf_flat[np.isclose(flat, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_flat[0])
@@ -8307,7 +8307,7 @@ class katojones_gen(CircularContinuous):
             if np.isclose(q_val, 0.0, atol=1e-12):
                 result[idx] = 0.0
                 continue
-            if np.isclose(q_val, 1.0, atol=1e-12):
+            if np.isclose(q_val, 1.0, rtol=0.0, atol=1e-12):
                 result[idx] = two_pi
                 continue
 
-- 
2.43.0


From 871647cdd4b53c905259415fb19356e548381f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:17 +0000
Subject: [PATCH 051/117] fix: katojones.ppf returned 0 for q close to 1 when
 the density vanishes at the cut

Reducing the distribution function modulo 1 turned a value rounded to 1 into 0
inside the bisection.
---
 pycircstat2/distributions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ac03654..c11c1dc 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8197,7 +8197,7 @@ class katojones_gen(CircularContinuous):
         else:
             series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
             cdf_raw = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val, series=series)
-            cdf_flat = np.mod(cdf_raw, 1.0)
+            cdf_flat = cdf_raw
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
@@ -8298,7 +8298,6 @@ class katojones_gen(CircularContinuous):
 
         def cdf_single(theta):
             value = self._evaluate_cdf_series(theta, mu_val, gamma_val, rho_val, lam_val, series=series)
-            value = np.mod(value, 1.0)
             return float(np.clip(value, 0.0, 1.0))
 
         for idx, q_val in enumerate(flat):
-- 
2.43.0


From 1a24608dc34de0b98768980ce096533769d35a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 052/117] fix: flat-topped von Mises raised ValueError for
 kappa of about 300 and more

Also cdf and ppf of inverse_batschelet: cumulative values down to 1e-308 gave
the inverse interpolant infinite slopes.
---
 pycircstat2/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c11c1dc..b97adbd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4605,6 +4605,7 @@ def _vmft_build_table(kappa, nu, grid_size):
     cumulative = np.concatenate(([0.0], np.cumsum(avg))) * (two_pi / grid_size)
     cumulative = np.clip(cumulative, 0.0, 1.0)
     cumulative = np.maximum.accumulate(cumulative)
+    cumulative[cumulative < 1e-100] = 0.0  # keep the slopes of the inverse finite
     cumulative[-1] = 1.0
 
     cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
@@ -7267,6 +7268,7 @@ class inverse_batschelet_gen(CircularContinuous):
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
         cumulative = np.maximum.accumulate(np.clip(cumulative, 0.0, 1.0))
+        cumulative[cumulative < 1e-100] = 0.0  # keep the slopes of the inverse finite
         cumulative[-1] = 1.0
 
         cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
-- 
2.43.0


From 49a49923fde9f8ca35cb82a6ac92e4cde057f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 053/117] fix: wrapstable cdf jumped to 1 where it should be
 practically 0

A cumulative value rounded below zero was wrapped to 1, so ppf missed its
target by orders of magnitude (delta = pi, alpha = 2, gamma = 0.25, q = 0.001).
---
 pycircstat2/distributions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b97adbd..58dee92 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7597,7 +7597,6 @@ class wrapstable_gen(CircularContinuous):
 
         anchor = (1.0 / np.pi) * np.sum((rho_vals / p_vals) * np.sin(-mu_vals))
         cdf_vals = cdf_vals - anchor
-        cdf_vals = np.where(cdf_vals < 0.0, cdf_vals + 1.0, cdf_vals)
         cdf_vals = np.clip(cdf_vals, 0.0, 1.0)
 
         # Ensure exact endpoints
-- 
2.43.0


From 69aa64b9700661d4fd5045e1f6332d22bc4e96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 054/117] fix: logcdf and logsf raised for points all on one
 side of the median

Among others wrapstable, katojones, cartwright: SciPy evaluates both halves,
and the parameter checks reject the empty one.
---
 pycircstat2/distributions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 58dee92..93d6cb9 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -409,6 +409,16 @@ class CircularContinuous(rv_continuous):
     # ------------------------------------------------------------------
     # Public overrides
     # ------------------------------------------------------------------
+    # SciPy's defaults split the points at the median and call ``_cdf`` on both
+    # halves, one of which may be empty.
+    def _logcdf(self, x, *args):
+        with np.errstate(divide="ignore"):
+            return np.log(self._cdf(x, *args))
+
+    def _logsf(self, x, *args):
+        with np.errstate(divide="ignore"):
+            return np.log(self._sf(x, *args))
+
     def pdf(self, x, *args, **kwargs):
         call_kwargs = self._prepare_call_kwargs(kwargs, "pdf")
         return super().pdf(self._wrap_angles(x), *args, **call_kwargs)
-- 
2.43.0


From d8a0e62b00130bfd5598378ca2b348f8e01004eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:07 +0000
Subject: [PATCH 055/117] fix: vonmises_flattopped.rvs never returned for nu >
 0 or very large kappa

The rejection envelope was far more concentrated than the tails of the target,
so that for kappa = 4, nu = 1 practically no proposal was ever accepted.
---
 pycircstat2/distributions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 93d6cb9..5482d57 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4549,7 +4549,12 @@ class vonmises_flattopped_gen(CircularContinuous):
             return params
 
         table = self._get_vmft_table(kappa, nu)
-        kappa_env = float(np.clip(kappa * (1.0 + nu) ** 2, _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER))
+        # The curvature at the mode is kappa * (1 + nu)^2, but for nu > 0 the tails only
+        # fall off like exp(kappa * cos(phi)): a more concentrated envelope would accept
+        # with probability exp(-kappa * nu * (2 + nu)), i.e. practically never.
+        kappa_env = float(
+            np.clip(kappa * min((1.0 + nu) ** 2, 1.0), _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER)
+        )
 
         log_env_norm = (
             np.log(2.0 * np.pi)
@@ -4557,7 +4562,8 @@ class vonmises_flattopped_gen(CircularContinuous):
             + kappa_env
         )
         log_env_pdf = kappa_env * np.cos(table["phi"]) - log_env_norm
-        log_ratio = np.log(table["pdf"]) - log_env_pdf
+        log_pdf = kappa * np.cos(table["phi"] + nu * np.sin(table["phi"])) + table["log_normalizer"]
+        log_ratio = log_pdf - log_env_pdf
         log_multiplier = float(np.max(log_ratio))
         multiplier = float(np.exp(log_multiplier) * (1.0 + 5e-12))
 
-- 
2.43.0


From d4595c1a5500c20e559f142980f080d214d73d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 056/117] fix: inverse_batschelet.rvs practically never
 returned for lmbd > 0

The rejection envelope took its concentration from the curvature at phi = 0,
which for peaked (lmbd > 0) or shifted (nu != 0) densities has nothing to do
with the tails: kappa = 2, lmbd = 0.7 accepted one proposal in 1e52.
---
 pycircstat2/distributions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5482d57..61751a1 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6860,7 +6860,9 @@ class inverse_batschelet_gen(CircularContinuous):
         pdf = table["pdf"]
         log_pdf = np.log(np.clip(pdf, np.finfo(float).tiny, None))
 
-        idx0 = int(np.argmin(np.abs(phi)))
+        # centre the envelope at the mode, which nu moves away from xi
+        idx0 = int(np.argmax(log_pdf))
+        center = float(phi[idx0])
         if idx0 == 0:
             idx0 = 1
         elif idx0 == phi.size - 1:
@@ -6879,12 +6881,13 @@ class inverse_batschelet_gen(CircularContinuous):
             curvature = max(-d2, 1e-3)
 
         kappa_env = float(np.clip(curvature, _INVBAT_ENV_MIN_KAPPA, _INVBAT_KAPPA_UPPER))
+        kappa_env, multiplier = _optimize_vonmises_envelope(
+            phi, log_pdf, center, min(kappa_env, max(kappa, _INVBAT_ENV_MIN_KAPPA))
+        )
         log_vm_norm = np.log(2.0 * np.pi) + np.log(i0e(kappa_env)) + kappa_env
-        log_ratio = log_pdf + log_vm_norm - kappa_env * np.cos(phi)
-        log_multiplier = float(np.max(log_ratio))
-        multiplier = float(np.exp(log_multiplier) * 1.02)
 
         params = {
+            "center": center,
             "kappa_env": kappa_env,
             "log_vm_norm": log_vm_norm,
             "log_multiplier": np.log(multiplier),
@@ -6933,6 +6936,7 @@ class inverse_batschelet_gen(CircularContinuous):
 
         table = self._get_invbat_table(kappa_val, nu_val, lmbd_val)
         sampler = self._get_invbat_sampler_params(kappa_val, nu_val, lmbd_val)
+        center = sampler["center"]
         kappa_env = sampler["kappa_env"]
         log_vm_norm = sampler["log_vm_norm"]
         log_multiplier = sampler["log_multiplier"]
@@ -6944,12 +6948,12 @@ class inverse_batschelet_gen(CircularContinuous):
 
         while filled < total:
             batch = min(batch_base, total - filled) if filled > 0 else batch_base
-            proposals = rng.vonmises(xi_val, kappa_env, size=batch)
+            proposals = rng.vonmises(xi_val + center, kappa_env, size=batch)
             phi = ((proposals - xi_val + np.pi) % two_pi) - np.pi
 
             pdf_vals = np.clip(pdf_interp(phi), np.finfo(float).tiny, None)
             log_target = np.log(pdf_vals)
-            log_env = kappa_env * np.cos(phi) - log_vm_norm
+            log_env = kappa_env * np.cos(phi - center) - log_vm_norm
             log_accept = log_target - log_env - log_multiplier
 
             accept_mask = np.log(rng.random(size=batch)) <= log_accept
-- 
2.43.0


From bcbab0a9a6af321ad39ff5c731192f32bce5964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 057/117] fix: rvs of a frozen vonmises raised TypeError for
 positional parameters

rvs took size first, unlike its documentation and every other distribution.
---
 pycircstat2/distributions.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 61751a1..ad69e5e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3645,12 +3645,16 @@ class vonmises_gen(CircularContinuous):
             return float(samples[0])
         return samples.reshape(target_shape)
 
-    def rvs(self, size=None, random_state=None, *args, **kwargs):
+    def rvs(self, mu=None, kappa=None, size=None, random_state=None):
         """
         Draw random variates.
 
         Parameters
         ----------
+        mu : float, optional
+            Mean direction. If omitted, use the instance attribute when available.
+        kappa : float, optional
+            Concentration parameter. If omitted, use the instance attribute when available.
         size : int or tuple, optional
             Number of samples to generate.
         random_state : RandomState, optional
@@ -3661,13 +3665,8 @@ class vonmises_gen(CircularContinuous):
         samples : ndarray
             Random variates.
         """
-        # Check if instance-level parameters are set
-        mu = getattr(self, "mu", None)
-        kappa = getattr(self, "kappa", None)
-
-        # Override instance parameters if provided in args/kwargs
-        mu = kwargs.pop("mu", mu)
-        kappa = kwargs.pop("kappa", kappa)
+        mu = getattr(self, "mu", None) if mu is None else mu
+        kappa = getattr(self, "kappa", None) if kappa is None else kappa
 
         # Ensure required parameters are provided
         if mu is None or kappa is None:
-- 
2.43.0


From c45a350581fd5936eb858f276cafccafc01dc4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 058/117] fix: jonespewsey_sineskewed.rvs rejected the
 admissible skewness |lmbd| = 1

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ad69e5e..8acec34 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5745,8 +5745,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         kappa_val = _jp_ensure_scalar(kappa, "kappa")
         psi_val = _jp_ensure_scalar(psi, "psi")
         lmbd_val = _jp_ensure_scalar(lmbd, "lmbd")
-        if abs(lmbd_val) >= 1.0:
-            raise ValueError("|lmbd| must be < 1 for sine-skewed Jones-Pewsey.")
+        if abs(lmbd_val) > 1.0:
+            raise ValueError("|lmbd| must be <= 1 for sine-skewed Jones-Pewsey.")
 
         if size is None:
             size_tuple = ()
-- 
2.43.0


From 068990da5677734ab6a2ecad8e396b8c63559a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:36 +0000
Subject: [PATCH 059/117] fix: wrapstable was mirrored in beta at alpha = 1

The phase of the characteristic function has a minus sign there (the pdf
docstring has it); with a plus sign the density is discontinuous in alpha.
---
 pycircstat2/distributions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8acec34..fd89e3f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7490,7 +7490,7 @@ class wrapstable_gen(CircularContinuous):
     \mu_p =
     \begin{cases}
         \delta p + \beta \tan\left(\tfrac{\pi\alpha}{2}\right)\bigl((\gamma p)^\alpha - \gamma p\bigr), & \alpha \ne 1, \\[6pt]
-        \delta p + \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
+        \delta p - \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
     \end{cases}
     $$
 
@@ -7576,7 +7576,7 @@ class wrapstable_gen(CircularContinuous):
         \mu_p = 
         \begin{cases}
             \delta p + \beta \tan\left(\frac{\pi \alpha}{2}\right) \left((\gamma p)^\alpha - \gamma p\right), & \alpha \neq 1 \\
-            \delta p - \beta \frac{2}{\pi} \log(\gamma p), & \text{if } \alpha = 1
+            \delta p - \beta \frac{2}{\pi} \gamma p \log(\gamma p), & \text{if } \alpha = 1
         \end{cases}
         $$
 
@@ -7823,8 +7823,8 @@ class wrapstable_gen(CircularContinuous):
         phi2 = phi2_raw + 2.0 * np.pi * round((2.0 * phi1 - phi2_raw) / (2.0 * np.pi))
 
         if abs(alpha_mom - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            B1 = (2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
-            B2 = (2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
+            B1 = -(2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
+            B2 = -(2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
             denom = B2 - 2.0 * B1
             if abs(denom) < 1e-8:
                 beta_mom = 0.0
@@ -8017,7 +8017,7 @@ class wrapstable_gen(CircularContinuous):
         rho_vals = np.exp(-((gamma * p) ** alpha))
 
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            mu_vals = delta * p + (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
+            mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
             mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
                 (gamma * p) ** alpha - gamma * p
-- 
2.43.0


From 7eab5fbbf3d99aee9eec73d2188c9cb524a48e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:36 +0000
Subject: [PATCH 060/117] fix: wrapstable.rvs was shifted by gamma * beta *
 tan(pi * alpha / 2)

---
 pycircstat2/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index fd89e3f..9f2867c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8060,11 +8060,9 @@ def _wrapstable_sample_linear(alpha, beta, gamma, delta, *, size, rng):
         theta0 = np.arctan(beta * tan_term) / alpha
         factor = (1.0 + (beta * tan_term) ** 2) ** (1.0 / (2.0 * alpha))
 
-        delta_s1 = delta - gamma * beta * tan_term
         part1 = np.sin(alpha * (V + theta0)) / (np.cos(V) ** (1.0 / alpha))
         part2 = (np.cos(V - alpha * (V + theta0)) / W) ** ((1.0 - alpha) / alpha)
-        x_s1 = gamma * factor * part1 * part2 + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * part1 * part2 + delta - gamma * beta * tan_term
     else:
         factor = 2.0 / np.pi
         delta_s1 = delta - factor * beta * gamma * np.log(gamma)
-- 
2.43.0


From b5d2c52d9172ff9d4bc01e3524b19c7a37547e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:13 +0000
Subject: [PATCH 061/117] fix: a negative kappa was taken for 0

The pdf of vonmises_flattopped and cdf and ppf of inverse_batschelet clipped
kappa before the argument check, so that they disagreed with cdf and pdf.
---
 pycircstat2/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 9f2867c..06f0411 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4004,7 +4004,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             - When $\kappa = 0$, the distribution becomes uniform on $[0, 2\pi)$.
         """
         mu_val = _vmft_ensure_scalar(mu, "mu")
-        kappa_val = float(np.clip(_vmft_ensure_scalar(kappa, "kappa"), 0.0, _VMFT_KAPPA_UPPER))
+        kappa_val = _vmft_ensure_scalar(kappa, "kappa")
         nu_val = _vmft_ensure_scalar(nu, "nu")
         return super().pdf(x, mu_val, kappa_val, nu_val, *args, **kwargs)
 
@@ -6718,7 +6718,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Cumulative probabilities corresponding to `x`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().cdf(x, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
@@ -6843,7 +6843,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Angles corresponding to the probabilities in `q`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().ppf(q, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
-- 
2.43.0


From ae0348e56d94f7d018131d1128276bac194a9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:13 +0000
Subject: [PATCH 062/117] fix: rvs drew from inadmissible parameters

triangular, wrapnorm, wrapcauchy and vonmises returned numbers for a
concentration outside its range (vonmises hung for NaN) instead of raising
ValueError as the other distributions do.
---
 pycircstat2/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 06f0411..3595a64 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1168,6 +1168,8 @@ class triangular_gen(CircularContinuous):
         rho_val = getattr(self, "rho", None) if rho is None else rho
         if rho_val is None:
             raise ValueError("'rho' must be provided.")
+        if not np.all(self._argcheck(rho_val)):
+            raise ValueError("`rho` must lie in [0, 4/pi**2].")
         return self._rvs(rho_val, size=size, random_state=random_state)
 
     def fit(self, data, *, weights=None, method="mle", return_info=False):
@@ -2653,6 +2655,8 @@ class wrapnorm_gen(CircularContinuous):
 
         if mu_val is None or rho_val is None:
             raise ValueError("Both 'mu' and 'rho' must be provided.")
+        if not np.all((np.asarray(rho_val) >= 0.0) & (np.asarray(rho_val) <= 1.0)):
+            raise ValueError("`rho` must lie in [0, 1].")
 
         return self._rvs(mu_val, rho_val, size=size, random_state=random_state)
 
@@ -3116,6 +3120,8 @@ class wrapcauchy_gen(CircularContinuous):
 
         if mu_val is None or rho_val is None:
             raise ValueError("Both 'mu' and 'rho' must be provided.")
+        if not np.all((np.asarray(rho_val) >= 0.0) & (np.asarray(rho_val) <= 1.0)):
+            raise ValueError("`rho` must lie in [0, 1].")
 
         return self._rvs(mu_val, rho_val, size=size, random_state=random_state)
 
@@ -3672,6 +3678,9 @@ class vonmises_gen(CircularContinuous):
         if mu is None or kappa is None:
             raise ValueError("Both 'mu' and 'kappa' must be provided.")
 
+        if not np.all((np.asarray(kappa) >= 0.0) & np.isfinite(kappa)):
+            raise ValueError("`kappa` must be non-negative and finite.")
+
         # Call the private _rvs method
         return self._rvs(mu, kappa, size=size, random_state=random_state)
 
-- 
2.43.0


From 76aa7935462d89c765249d64dfb3f37191be30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:38 +0000
Subject: [PATCH 063/117] fix: maximum likelihood fits stuck to the cut at 0 =
 2*pi

The location was bounded to [0, 2*pi], so a start just on one side of the cut
could not move to an optimum on the other side.  Bound it to half a turn
around the start instead; the estimate is wrapped afterwards as before.
---
 pycircstat2/distributions.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3595a64..8960b02 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1712,7 +1712,7 @@ class cardioid_gen(CircularContinuous):
                 }
             else:
                 init = np.array([mu_mom, rho_mom], dtype=float)
-                bounds = [(0.0, 2.0 * np.pi), (0.0, 0.5)]
+                bounds = [(mu_mom - np.pi, mu_mom + np.pi), (0.0, 0.5)]
                 result = minimize(
                     _nll,
                     init,
@@ -2217,7 +2217,7 @@ class cartwright_gen(CircularContinuous):
             mu_init = mu_mom
             zeta_init = zeta_mom if np.isfinite(zeta_mom) else 10.0
             zeta_init = float(np.clip(zeta_init, 1e-3, 1e4))
-            bounds = [(0.0, 2.0 * np.pi), (1e-6, 1e6)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-6, 1e6)]
             result = minimize(
                 nll,
                 np.array([mu_init, zeta_init], dtype=float),
@@ -2790,7 +2790,7 @@ class wrapnorm_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, rho_mom], dtype=float)
             result = minimize(
                 nll,
@@ -3223,7 +3223,7 @@ class wrapcauchy_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, max(1e-3, min(rho_mom, 1.0 - 1e-3))], dtype=float)
             result = minimize(
                 nll,
@@ -3863,7 +3863,7 @@ class vonmises_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1e6)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1e6)]
             init = np.array([mu_mom, kappa_mom], dtype=float)
             result = minimize(
                 nll,
@@ -4393,8 +4393,6 @@ class vonmises_flattopped_gen(CircularContinuous):
         def nll(params):
             mu_param, kappa_param, nu_param = params
 
-            if not (0.0 <= mu_param <= 2.0 * np.pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -4443,7 +4441,7 @@ class vonmises_flattopped_gen(CircularContinuous):
 
         init = np.array([mu_mom, kappa_mom, best_nu], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu_mom - np.pi, mu_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
         ]
@@ -5265,7 +5263,7 @@ class jonespewsey_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), kappa_bounds, psi_bounds]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), kappa_bounds, psi_bounds]
             init = np.array([mu_mom, kappa_mom, psi_init], dtype=float)
             result = minimize(
                 nll,
@@ -5894,7 +5892,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
 
         if refine:
             bounds = [
-                (0.0, 2.0 * np.pi),
+                (xi_hat - np.pi, xi_hat + np.pi),
                 kappa_bounds,
                 psi_bounds,
                 lmbd_bounds,
@@ -6418,7 +6416,7 @@ class jonespewsey_asym_gen(CircularContinuous):
 
         init = np.array([xi_init, kappa_init, psi_init, nu_init], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (xi_init - np.pi, xi_init + np.pi),
             kappa_bounds,
             psi_bounds,
             nu_bounds,
@@ -7135,8 +7133,6 @@ class inverse_batschelet_gen(CircularContinuous):
 
         def nll(params):
             xi_param, kappa_param, nu_param, lmbd_param = params
-            if not (0.0 <= xi_param <= two_pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -7169,7 +7165,7 @@ class inverse_batschelet_gen(CircularContinuous):
 
         init = np.array([xi_mom, kappa_mom, best_nu, best_lmbd], dtype=float)
         bounds = [
-            (0.0, two_pi),
+            (xi_mom - np.pi, xi_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
             (lmbd_bounds[0], lmbd_bounds[1]),
@@ -7874,8 +7870,6 @@ class wrapstable_gen(CircularContinuous):
 
         def nll(params):
             delta_param, alpha_param, beta_param, gamma_param = params
-            if not (0.0 <= delta_param <= 2.0 * np.pi):
-                return np.inf
             if not (alpha_bounds[0] <= alpha_param <= alpha_bounds[1]):
                 return np.inf
             if not (beta_bounds[0] <= beta_param <= beta_bounds[1]):
@@ -7916,7 +7910,7 @@ class wrapstable_gen(CircularContinuous):
                             best_params = cand
 
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (best_params[0] - np.pi, best_params[0] + np.pi),
             tuple(alpha_bounds),
             tuple(beta_bounds),
             tuple(gamma_bounds),
@@ -8763,10 +8757,10 @@ class katojones_gen(CircularContinuous):
             return -np.sum(w * np.log(pdf_vals))
 
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu0 - np.pi, mu0 + np.pi),
             (1e-6, 1.0 - 1e-6),
             (0.0, 1.0 - 1e-6),
-            (0.0, 2.0 * np.pi),
+            (phi0 - np.pi, phi0 + np.pi),
         ]
 
         result = minimize(
-- 
2.43.0


From 6d138534fd792a95ff890c29fab225515c8ebf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 064/117] fix: jonespewsey.fit(method='moments') reported the
 likelihood of another psi

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8960b02..95df3b7 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5241,7 +5241,7 @@ class jonespewsey_gen(CircularContinuous):
             return float(-np.sum(w * np.log(pdf_vals)))
 
         psi_init = 0.0
-        best_score = nll((mu_mom, kappa_mom, psi_init))
+        best_score = moments_nll = nll((mu_mom, kappa_mom, psi_init))
         for candidate in psi_grid:
             score = nll((mu_mom, kappa_mom, candidate))
             if score < best_score:
@@ -5258,7 +5258,7 @@ class jonespewsey_gen(CircularContinuous):
             estimates = (self._wrap_direction(mu_mom), kappa_mom, 0.0)
             info = {
                 "method": "moments",
-                "loglik": float(-best_score),
+                "loglik": float(-moments_nll),
                 "n_effective": float(n_eff),
                 "converged": True,
             }
-- 
2.43.0


From 1dbdf62c64a2a0d9bbce3e218b4ea447914b5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 065/117] fix: inverse_batschelet.fit(method='moments')
 reported NaN as likelihood

---
 pycircstat2/distributions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 95df3b7..d91b1eb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7103,20 +7103,8 @@ class inverse_batschelet_gen(CircularContinuous):
         n_adjust = int(max(1, round(w_sum)))
         kappa_mom = float(np.clip(circ_kappa(r=r1, n=n_adjust), kappa_bounds[0], kappa_bounds[1]))
 
-        if method == "moments":
-            estimates = (xi_mom, kappa_mom, 0.0, 0.0)
-            if return_info:
-                info = {
-                    "method": "moments",
-                    "converged": True,
-                    "loglik": float(-np.sum(w) * np.log(2.0 * np.pi)) if kappa_mom <= _INVBAT_KAPPA_TOL else float("nan"),
-                    "n_effective": n_eff,
-                }
-                return estimates, info
-            return estimates
-
         method_key = str(method).lower()
-        if method_key != "mle":
+        if method_key not in {"mle", "moments"}:
             raise ValueError("`method` must be one of {'mle', 'moments' }.")
 
         two_pi = 2.0 * np.pi
@@ -7152,6 +7140,18 @@ class inverse_batschelet_gen(CircularContinuous):
                 return np.inf
             return float(-np.sum(w * np.log(pdf_vals)))
 
+        if method_key == "moments":
+            estimates = (xi_mom, kappa_mom, 0.0, 0.0)
+            if return_info:
+                info = {
+                    "method": "moments",
+                    "converged": True,
+                    "loglik": float(-nll(estimates)),
+                    "n_effective": n_eff,
+                }
+                return estimates, info
+            return estimates
+
         best_nu = 0.0
         best_lmbd = 0.0
         best_score = nll((xi_mom, kappa_mom, best_nu, best_lmbd))
-- 
2.43.0


From b1df57c86ead7afd20882d2495564add4ea6ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 066/117] fix: Jones-Pewsey fits never left psi = 0

At the von Mises start the density is treated as independent of psi, so that
the finite-difference gradient in psi is zero and psi stayed at 0.
---
 pycircstat2/distributions.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index d91b1eb..28f33f2 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5264,7 +5264,7 @@ class jonespewsey_gen(CircularContinuous):
             }
         else:
             bounds = [(mu_mom - np.pi, mu_mom + np.pi), kappa_bounds, psi_bounds]
-            init = np.array([mu_mom, kappa_mom, psi_init], dtype=float)
+            init = np.array([mu_mom, kappa_mom, _jp_psi_start(psi_init, psi_bounds)], dtype=float)
             result = minimize(
                 nll,
                 init,
@@ -5303,6 +5303,16 @@ jonespewsey = jonespewsey_gen(name="jonespewsey")
 
 _JP_KAPPA_TOL = 1e-3
 _JP_PSI_TOL = 1e-6
+
+
+def _jp_psi_start(psi, psi_bounds):
+    # The density does not depend on psi for |psi| < _JP_PSI_TOL: a
+    # finite-difference gradient taken there vanishes.
+    if abs(psi) >= 1e-2:
+        return psi
+    return float(np.clip(1e-2, psi_bounds[0], psi_bounds[1]))
+
+
 _JP_MIN_BASE = np.finfo(float).tiny
 _JP_MAX_EXP_ARGUMENT = 350.0  # guard for exp overflow
 
@@ -5912,7 +5922,9 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                     return np.inf
                 return float(-np.sum(w * np.log(pdf_vals)))
 
-            init = np.array([xi_hat, kappa_hat, psi_hat, lmbd_hat], dtype=float)
+            init = np.array(
+                [xi_hat, kappa_hat, _jp_psi_start(psi_hat, psi_bounds), lmbd_hat], dtype=float
+            )
             result = minimize(
                 total_nll,
                 init,
@@ -6414,7 +6426,9 @@ class jonespewsey_asym_gen(CircularContinuous):
                 return np.inf
             return float(-np.sum(w * np.log(pdf_vals)))
 
-        init = np.array([xi_init, kappa_init, psi_init, nu_init], dtype=float)
+        init = np.array(
+            [xi_init, kappa_init, _jp_psi_start(psi_init, psi_bounds), nu_init], dtype=float
+        )
         bounds = [
             (xi_init - np.pi, xi_init + np.pi),
             kappa_bounds,
-- 
2.43.0


From 17fa2f73de728e2b206bb683152fb0e73455e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 067/117] fix: likelihood searches stopped where the line
 search met density 0 or the edge of the bounds

---
 pycircstat2/distributions.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 28f33f2..99e1126 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5236,8 +5236,10 @@ class jonespewsey_gen(CircularContinuous):
                 return np.inf
             mu_wrapped = float(np.mod(mu_param, 2.0 * np.pi))
             pdf_vals = self.pdf(x, mu_wrapped, kappa_param, psi_param)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            # a finite penalty: the line search gives up at an infinite value
+            pdf_vals = np.maximum(pdf_vals, np.finfo(float).tiny)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         psi_init = 0.0
@@ -5914,12 +5916,14 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                     return np.inf
                 if not (psi_bounds[0] <= psi_param <= psi_bounds[1]):
                     return np.inf
-                if not (lmbd_bounds[0] < lmbd_param < lmbd_bounds[1]):
+                if not (lmbd_bounds[0] <= lmbd_param <= lmbd_bounds[1]):
                     return np.inf
                 xi_wrapped = float(np.mod(xi_param, 2.0 * np.pi))
                 pdf_vals = self.pdf(x, xi_wrapped, kappa_param, psi_param, lmbd_param)
-                if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+                if not np.all(np.isfinite(pdf_vals)):
                     return np.inf
+                # a finite penalty: the line search gives up at an infinite value
+                pdf_vals = np.maximum(pdf_vals, np.finfo(float).tiny)
                 return float(-np.sum(w * np.log(pdf_vals)))
 
             init = np.array(
@@ -6418,12 +6422,14 @@ class jonespewsey_asym_gen(CircularContinuous):
                 return np.inf
             if not (psi_low <= psi_param <= psi_high):
                 return np.inf
-            if not (nu_low <= nu_param < nu_high):
+            if not (nu_low <= nu_param <= nu_high):
                 return np.inf
             xi_wrapped = float(np.mod(xi_param, 2.0 * np.pi))
             pdf_vals = self.pdf(x, xi_wrapped, kappa_param, psi_param, nu_param)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            # a finite penalty: the line search gives up at an infinite value
+            pdf_vals = np.maximum(pdf_vals, np.finfo(float).tiny)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         init = np.array(
@@ -7150,8 +7156,10 @@ class inverse_batschelet_gen(CircularContinuous):
             table = self._get_invbat_table(float(kappa_param), float(nu_param), float(lmbd_param))
             phi = ((data_arr - xi_wrapped + np.pi) % two_pi) - np.pi
             pdf_vals = table["pdf_interp"](phi)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            # a finite penalty: the line search gives up at an infinite value
+            pdf_vals = np.maximum(pdf_vals, np.finfo(float).tiny)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         if method_key == "moments":
@@ -7892,8 +7900,10 @@ class wrapstable_gen(CircularContinuous):
                 return np.inf
 
             pdf_vals = self._pdf(data_arr, delta_param, alpha_param, beta_param, gamma_param)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            # a finite penalty: the line search gives up at an infinite value
+            pdf_vals = np.maximum(pdf_vals, np.finfo(float).tiny)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         delta_candidates = np.mod(
-- 
2.43.0


From e67304598993cf955af79837f691c567edb9e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 068/117] fix: vonmises.nnlf raised TypeError

---
 pycircstat2/distributions.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 99e1126..121a453 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3748,21 +3748,6 @@ class vonmises_gen(CircularContinuous):
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
         return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - i1e(kappa) / i0e(kappa))
 
-    def _nnlf(self, theta, data):
-        """
-        Custom negative log-likelihood function for the Von Mises distribution.
-        """
-        mu, kappa = theta
-
-        if not self._argcheck(mu, kappa):  # Validate parameter range
-            return np.inf
-
-        # Compute log-likelihood robustly
-        log_likelihood = self._logpdf(data, mu, kappa)
-
-        # Negative log-likelihood
-        return -np.sum(log_likelihood)
-
     def fit(
         self,
         data,
-- 
2.43.0


From a36272c6bd9342fc7bc60aba07143db61f7ac1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 069/117] fix: circularuniform.nnlf counted one observation

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 121a453..180e77e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -792,7 +792,7 @@ class circularuniform_gen(CircularContinuous):
     """
 
     def _pdf(self, x):
-        return 1 / (2 * np.pi)
+        return np.full(np.shape(x), 1 / (2 * np.pi))[()]
 
     def pdf(self, x, *args, **kwargs):
         r"""
-- 
2.43.0


From 534ed81fbdc60f0f9c08b8fd63a7d995d02da44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 070/117] fix: wrapstable.entropy was -inf where the series
 fell below 0

---
 pycircstat2/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 180e77e..c199416 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7566,6 +7566,8 @@ class wrapstable_gen(CircularContinuous):
         cos_args = p[:, np.newaxis] * x_arr[np.newaxis, ...] - mu_vals[:, np.newaxis]
         series_sum = np.sum(rho_vals[:, np.newaxis] * np.cos(cos_args), axis=0)
         pdf_values = 1 / (2 * np.pi) * (1 + 2 * series_sum)
+        # rounding errors of the series can leave a tiny negative density
+        pdf_values = np.where((pdf_values < 0.0) & (pdf_values > -1e-9), 0.0, pdf_values)
         if np.isscalar(x):
             return np.asarray(pdf_values, dtype=float).reshape(-1)[0]
         return pdf_values
-- 
2.43.0


From f436d472ce125761ab6a21fb42d0f42275925e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:55 +0000
Subject: [PATCH 071/117] fix: Kato-Jones estimates and conversions could give
 lambda = 2*pi, which the law rejects

---
 pycircstat2/distributions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c199416..de91002 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -500,7 +500,11 @@ class CircularContinuous(rv_continuous):
         Wrap a direction onto the distribution's support if known, otherwise [0, 2π).
         """
         if self._lower_bound is not None and self._period is not None:
-            return float(self._wrap_angles(angle))
+            wrapped = float(self._wrap_angles(angle))
+            # rounding can return the excluded upper end of the period
+            if wrapped >= self._lower_bound + self._period:
+                return float(self._lower_bound)
+            return wrapped
         return float(angmod(angle))
 
     # ------------------------------------------------------------------
@@ -8484,7 +8488,7 @@ class katojones_gen(CircularContinuous):
         else:
             r2 = np.hypot(alpha2_proj, beta2_proj)
             rho_hat = float(np.clip(r2 / max(gamma_hat, 1e-12), 0.0, 1.0 - 1e-9))
-            lam_hat = float(np.mod(np.arctan2(beta2_proj, alpha2_proj), 2.0 * np.pi))
+            lam_hat = float(angmod(float(np.arctan2(beta2_proj, alpha2_proj))))
             if rho_hat < self._moment_tolerance:
                 lam_hat = 0.0
 
@@ -8571,7 +8575,7 @@ class katojones_gen(CircularContinuous):
         if r2 <= tol:
             lam = 0.0
         else:
-            lam = float(np.mod(np.arctan2(beta2, alpha2), 2.0 * np.pi))
+            lam = float(angmod(float(np.arctan2(beta2, alpha2))))
         return rho, lam
 
     @staticmethod
@@ -8652,7 +8656,7 @@ class katojones_gen(CircularContinuous):
         rho_cos = gamma + delta_cos
         rho_sin = delta_sin
         rho = float(np.clip(np.hypot(rho_cos, rho_sin), 0.0, 1.0 - 1e-9))
-        lam = float(np.mod(np.arctan2(rho_sin, rho_cos), 2.0 * np.pi))
+        lam = float(angmod(float(np.arctan2(rho_sin, rho_cos))))
         return rho, lam
 
     def _get_series_terms(self, mu, gamma, rho, lam):
-- 
2.43.0


From 7ba844dba780e5b52a683db554480de576b1d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:37 +0000
Subject: [PATCH 072/117] fix: circ_kappa(r=1) was 1e-16, no concentration at
 all

---
 pycircstat2/descriptive.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index cde8ee5..78d11fb 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1393,11 +1393,8 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
         kappa = -0.4 + 1.39 * r + 0.43 / (1 - r)
     else:
         nom = r**3 - 4 * r**2 + 3 * r
-        if nom != 0:
-            kappa = 1 / nom
-        else:
-            # not sure how to handle this...
-            kappa = 1e-16
+        # r = 1 (up to rounding): the largest concentration that can be told apart
+        kappa = 1 / max(nom, np.finfo(float).eps)
 
     # eq 4.41
     if n is not None:
-- 
2.43.0


From 4ad4bedd7b8ff1c722983ccd242b634063848044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:37 +0000
Subject: [PATCH 073/117] fix: MovM became NaN when a component had no mean
 direction

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..f79318d 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -166,7 +166,7 @@ class MovM:
         for c in range(n_clusters_init):
             subset = x[labels == c]
             m_c, r_c = circ_mean_and_r(subset)
-            means[c] = m_c
+            means[c] = m_c if np.isfinite(m_c) else 0.0
             resultants[c] = r_c
             kappa_c = circ_kappa(r=r_c)
             if not np.isfinite(kappa_c):
@@ -229,7 +229,8 @@ class MovM:
                     resultants[c] = 0.0
                 else:
                     mc, rc = circ_mean_and_r(alpha, w=weights)
-                    means_updated[c] = mc
+                    # no mean direction: the component is uniform whatever its mean
+                    means_updated[c] = mc if np.isfinite(mc) else means[c]
                     resultants[c] = rc
 
             kappas = np.array([max(circ_kappa(r=rc), 1e-3) for rc in resultants])
-- 
2.43.0


From 246e00c52ec69036379ad504df8412acfd312b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 074/117] fix: cartwright overflowed to NaN for zeta below
 0.012

---
 pycircstat2/distributions.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index de91002..466e0f8 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1804,11 +1804,10 @@ class cartwright_gen(CircularContinuous):
         return float(result) if np.isscalar(zeta) else result
 
     def _pdf(self, x, mu, zeta):
-        return (
-            (2 ** (-1 + 1 / zeta) * (gamma(1 + 1 / zeta)) ** 2)
-            * (1 + np.cos(x - mu)) ** (1 / zeta)
-            / (np.pi * gamma(1 + 2 / zeta))
-        )
+        # the gamma functions of the normalising constant overflow for small zeta:
+        # 2^(-1+1/zeta) Gamma^2(1+1/zeta) / (pi Gamma(1+2/zeta)) = 2^(-1/zeta) / (2 B(1/2, 1/zeta+1/2))
+        inv = 1 / zeta
+        return (0.5 * (1 + np.cos(x - mu))) ** inv / (2 * beta_fn(0.5, inv + 0.5))
 
     def pdf(self, x, mu, zeta, *args, **kwargs):
         r"""
@@ -1877,14 +1876,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        beta_term = beta_fn(a, b)
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_term  # equals 0.5
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5
 
         phi_start = (-mu_val) % two_pi
         phi_end = (flat - mu_val) % two_pi
@@ -1946,13 +1938,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_fn(a, b)
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5
 
         phi_start = (-mu_val) % two_pi
         H_start = self._cartwright_cumulative(np.array([phi_start]), a, b, half_norm)[0]
-- 
2.43.0


From f33c25c582ca679752793650a261d10cc742fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 075/117] fix: wrapcauchy density was infinite at the mode for
 rho close to 1

---
 pycircstat2/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 466e0f8..fa07dcb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2854,7 +2854,9 @@ class wrapcauchy_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (1 - rho**2) / (2 * np.pi * (1 + rho**2 - 2 * rho * np.cos(x - mu)))
+        # 1 + rho^2 - 2 rho cos(d) without cancellation for rho close to 1
+        denom = (1 - rho) ** 2 + 4 * rho * np.sin(0.5 * (x - mu)) ** 2
+        return (1 - rho**2) / (2 * np.pi * denom)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From dfdcce6726bb04525a58e5b607cb4acffa67711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 076/117] fix: CircHAC merged the clusters with the most
 negative signed distance

circ_dist is signed for the default metric 'center', so the pair furthest
apart clockwise was merged first, not the closest pair; and a cluster
without a mean direction could leave more clusters than asked for.
---
 pycircstat2/clustering.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index f79318d..8c51fc0 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1413,14 +1413,15 @@ class CircHAC:
             best_pair: Optional[Tuple[int, int]] = None
             for idx, cid_i in enumerate(cluster_ids):
                 for cid_j in cluster_ids[idx + 1 :]:
-                    dist_ij = circ_dist(means[cid_i], means[cid_j], metric=self.metric)
-                    if dist_ij < best_dist:
+                    # `circ_dist` is signed for the default metric
+                    dist_ij = abs(circ_dist(means[cid_i], means[cid_j], metric=self.metric))
+                    if np.isnan(dist_ij):
+                        # a cluster without a mean direction is merged last
+                        dist_ij = np.inf
+                    if best_pair is None or dist_ij < best_dist:
                         best_dist = dist_ij
                         best_pair = (cid_i, cid_j)
 
-            if best_pair is None:
-                break
-
             cid_i, cid_j = best_pair
             merged_indices = clusters[cid_i] + clusters[cid_j]
             merges.append([cid_i, cid_j, float(abs(best_dist)), float(len(merged_indices))])
-- 
2.43.0


From b4c54eb54ed1a922125781b3dc1f52973259abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 077/117] fix: CircHAC.silhouette_score counted each point's
 distance to itself

The mean distance to the own cluster is over the other points of it.
---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 8c51fc0..5153d68 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1564,7 +1564,8 @@ class CircHAC:
             in_cluster_i = (labels == c_i)
             # average distance to own cluster
             # excluding the point itself
-            a_i = pairwise[i, in_cluster_i].mean() if in_cluster_i.sum() > 1 else 0.0
+            n_own = in_cluster_i.sum()
+            a_i = pairwise[i, in_cluster_i].sum() / (n_own - 1) if n_own > 1 else 0.0
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From ac40fa2ab44a1d68f62f51aad30cc3ada959b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 078/117] fix: CircKMeans centers became NaN for a cluster
 without a mean direction

---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 5153d68..7c1eb97 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1701,7 +1701,8 @@ class CircKMeans:
                 if np.any(mask):
                     # circular mean of assigned points
                     m, _ = circ_mean_and_r(alpha[mask])
-                    new_centers[c] = m
+                    # no mean direction: every center is equally good, keep the old one
+                    new_centers[c] = m if np.isfinite(m) else centers[c]
                 else:
                     # if no points assigned, keep old center or random re-init
                     new_centers[c] = centers[c]
-- 
2.43.0


From cc4abceee74c96e0c48b19e6f5cca9b1e54f2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 079/117] fix: CircKMeans.predict failed after a fit with fewer
 observations than clusters

---
 pycircstat2/clustering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 7c1eb97..60cb507 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1753,8 +1753,10 @@ class CircKMeans:
         else:
             alpha = X
 
+        # fewer than n_clusters if there were fewer observations
+        n_centers = len(self.centers_)
         n_samples = len(alpha)
-        dist_mat = np.zeros((self.n_clusters, n_samples))
-        for c in range(self.n_clusters):
+        dist_mat = np.zeros((n_centers, n_samples))
+        for c in range(n_centers):
             dist_mat[c] = np.abs(circ_dist(alpha, self.centers_[c], metric=self.metric))
         return dist_mat.argmin(axis=0)
-- 
2.43.0


From 25229c2f77f7fe65afb00d387896648b29ad3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 080/117] fix: mixture models kept converged=True from an
 earlier fit

---
 pycircstat2/clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 60cb507..81b8bc6 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -202,6 +202,8 @@ class MovM:
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
+        self.converged = False
+        self.converged_iters = None
 
         means, kappa, p = self._initialize(alpha, self.n_clusters)
 
@@ -711,6 +713,8 @@ class MoKJ:
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
+        self.converged = False
+        self.converged_iters = None
 
         mu, gamma, rho, lam, p = self._initialize(alpha, self.n_clusters)
 
@@ -1135,6 +1139,8 @@ class MoCD:
         self.data = X
         self.alpha = alpha
         self.n = alpha.size
+        self.converged = False
+        self.converged_iters = None
 
         params_list, p = self._initialize(alpha)
 
-- 
2.43.0


From 86ee39492a12b127c45809c6ef747635c9ca765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 081/117] fix: MovM.compute_gamma was NaN where every component
 density underflows

---
 pycircstat2/clustering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 81b8bc6..7b545c6 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -294,9 +294,8 @@ class MovM:
             Cluster assignment probabilities for each data point.
         """
         log_gamma = self._log_gamma(alpha, p, m, kappa)
-        gamma = np.exp(log_gamma)
-        gamma /= gamma.sum(axis=0, keepdims=True)
-        return gamma
+        log_norm = np.logaddexp.reduce(log_gamma, axis=0, keepdims=True)
+        return np.exp(log_gamma - log_norm)
 
     def _log_gamma(
         self,
-- 
2.43.0


From 84d22fb7167f59d06a48dee0628e90d98a02521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 082/117] fix: default grid of predict_density covered part of
 the cycle unless it was 360

---
 pycircstat2/clustering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 7b545c6..dab291e 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -8,7 +8,7 @@ from scipy.special import logsumexp
 
 from .descriptive import circ_dist, circ_kappa, circ_mean_and_r
 from .distributions import CircularContinuous, vonmises, katojones
-from .utils import data2rad
+from .utils import data2rad, rad2data
 
 ALLOWED_MOCD_DISTRIBUTIONS = {
     "cardioid",
@@ -388,7 +388,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -877,7 +877,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1242,7 +1242,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = rad2data(X, k=full_cycle)
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From 95834e11b8f8d2f516d811a6a7e5fe84834e8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 083/117] fix: MoCD.bic converted the data to radians twice for
 unit='degree'

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index dab291e..a942e22 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1256,7 +1256,7 @@ class MoCD:
     def bic(self) -> float:
         if self.alpha is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        log_likelihood = self.score_samples(self.data)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From b8e9623bc24efc6234d5fc9d14b7578b89ef3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:40 +0000
Subject: [PATCH 084/117] fix: MoCD became NaN when an observation has zero
 density under every component

A cardioid at its boundary rho=0.5 vanishes opposite to its mean: an
observation there made all responsibilities, weights and parameters NaN.
---
 pycircstat2/clustering.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index a942e22..3773686 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1125,6 +1125,15 @@ class MoCD:
         )
         return log_prob
 
+    @staticmethod
+    def _posterior(log_resp: np.ndarray, p: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        """Posterior probabilities (K, n) and log-density (1, n) from the log joint."""
+        log_norm = logsumexp(log_resp, axis=0, keepdims=True)
+        # an observation outside the support of every component says nothing about them
+        outside = np.isneginf(log_norm)
+        log_resp = np.where(outside, np.log(p + 1e-32)[:, None], log_resp)
+        return np.exp(log_resp - np.where(outside, 0.0, log_norm)), log_norm
+
     # ------------------------------------------------------------------ #
     # Public API
     # ------------------------------------------------------------------ #
@@ -1151,8 +1160,7 @@ class MoCD:
 
         for iteration in range(self.n_iters):
             log_resp = self._log_gamma(alpha, p, params_list)
-            log_norm = logsumexp(log_resp, axis=0, keepdims=True)
-            gamma_normed = np.exp(log_resp - log_norm)
+            gamma_normed, log_norm = self._posterior(log_resp, p)
 
             p = gamma_normed.sum(axis=1)
             p /= p.sum()
@@ -1192,8 +1200,7 @@ class MoCD:
         self.param_matrix_ = np.vstack([self._params_to_array(params) for params in params_list])
 
         final_log = self._log_gamma(alpha, p, params_list)
-        final_norm = logsumexp(final_log, axis=0, keepdims=True)
-        gamma_final = np.exp(final_log - final_norm)
+        gamma_final, _ = self._posterior(final_log, p)
         self.gamma_ = gamma_final
         self.labels_ = gamma_final.argmax(axis=0)
         return self
@@ -1206,8 +1213,7 @@ class MoCD:
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
         log_resp = self._log_gamma(alpha, self.p_, self.params_)
-        log_norm = logsumexp(log_resp, axis=0, keepdims=True)
-        return np.exp(log_resp - log_norm)
+        return self._posterior(log_resp, self.p_)[0]
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         proba = self.predict_proba(X)
-- 
2.43.0


From 4243fc7e5956eac526c379f2ac9a259e283af4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 085/117] fix: A1 and the regression likelihood overflowed to
 NaN for kappa above 713

---
 pycircstat2/regression.py | 13 ++++++++-----
 pycircstat2/utils.py      |  5 +++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..4b44f68 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -3,7 +3,7 @@ from typing import Iterable, List, Optional, Tuple, Union
 import numpy as np
 import pandas as pd
 from scipy.linalg import lstsq
-from scipy.special import i0, i1
+from scipy.special import i0e
 from scipy.stats import chi2, norm
 
 from .utils import A1, A1inv, significance_code
@@ -188,7 +188,10 @@ class CLRegression:
         return theta, X, x_cols
 
     def _A1(self, kappa: np.ndarray) -> np.ndarray:
-        return i1(kappa) / i0(kappa)
+        return A1(kappa)
+
+    def _log_i0(self, kappa: np.ndarray) -> np.ndarray:
+        return np.log(i0e(kappa)) + kappa
 
     def _A1inv(self, R: float) -> float:
         if 0 <= R < 0.53:
@@ -233,7 +236,7 @@ class CLRegression:
                 alpha_new, gamma_new = alpha, gamma
 
                 # Log-likelihood
-                log_likelihood = -n * np.log(i0(kappa)) + kappa * np.sum(
+                log_likelihood = -n * self._log_i0(kappa) + kappa * np.sum(
                     np.cos(raw_deviation - mu)
                 )
 
@@ -259,7 +262,7 @@ class CLRegression:
                 gamma_new = gamma + update[1:]
                 beta_new = beta
                 # Log-likelihood
-                log_likelihood = -np.sum(np.log(i0(kappa))) + np.sum(
+                log_likelihood = -np.sum(self._log_i0(kappa)) + np.sum(
                     kappa * np.cos(theta - mu)
                 )
 
@@ -297,7 +300,7 @@ class CLRegression:
                 gamma_new = gamma + update[1:]
 
                 # Log-likelihood
-                log_likelihood = -np.sum(np.log(i0(kappa))) + np.sum(
+                log_likelihood = -np.sum(self._log_i0(kappa)) + np.sum(
                     kappa * np.cos(raw_deviation - mu)
                 )
 
diff --git a/pycircstat2/utils.py b/pycircstat2/utils.py
index 7c81eb6..c76aa94 100644
--- a/pycircstat2/utils.py
+++ b/pycircstat2/utils.py
@@ -4,7 +4,7 @@ from typing import Union
 
 import numpy as np
 import pandas as pd
-from scipy.special import i0, i1
+from scipy.special import i0e, i1e
 
 
 def data2rad(
@@ -231,7 +231,8 @@ def rotate_data(alpha: np.ndarray, angle: float, unit: str = "radian") -> np.nda
 
 
 def A1(kappa: np.ndarray) -> np.ndarray:
-    return i1(kappa) / i0(kappa)
+    # exponentially scaled: i0 and i1 overflow for kappa > 713
+    return i1e(kappa) / i0e(kappa)
 
 def A1inv(R: float) -> float:
     if 0 <= R < 0.53:
-- 
2.43.0


From dd0649fcbaf9c0e6d779ee1ea4b7d0eb2d2cd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 086/117] fix: A1inv(1) divided by zero, and was negative for R
 just above 1

---
 pycircstat2/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/utils.py b/pycircstat2/utils.py
index c76aa94..8e78cd0 100644
--- a/pycircstat2/utils.py
+++ b/pycircstat2/utils.py
@@ -240,4 +240,5 @@ def A1inv(R: float) -> float:
     elif R < 0.85:
         return -0.4 + 1.39 * R + 0.43 / (1 - R)
     else:
-        return 1 / (R**3 - 4 * R**2 + 3 * R)
\ No newline at end of file
+        # no more than 1/eps for (numerically) perfect concentration
+        return 1 / max(R**3 - 4 * R**2 + 3 * R, np.finfo(float).eps)
\ No newline at end of file
-- 
2.43.0


From 76bc50dfbd472289a2e9d7b7e2258244653a009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 087/117] fix: CLRegression(model_type='mixed') updated beta
 with the wrong working response

The Fisher scoring step needs kappa*sin of the current residuals plus the
working response of the current beta, as in model_type='mean'; without
them the iteration does not move to a maximum of the likelihood.
---
 pycircstat2/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 4b44f68..1c01e94 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -273,14 +273,14 @@ class CLRegression:
                 S = np.sum(kappa * np.sin(raw_deviation))
                 C = np.sum(kappa * np.cos(raw_deviation))
                 mu = np.arctan2(S, C)
-                residuals = theta - mu
 
                 # Step 2: Update beta
                 denom = 1 + (X @ beta) ** 2
                 G = 2 * X / denom[:, None]
                 weights_beta = kappa * self._A1(kappa)
                 XtWX_beta = G.T @ (weights_beta[:, None] * G)
-                rhs_beta = G.T @ (weights_beta * np.sin(residuals))
+                u = kappa * np.sin(raw_deviation - mu)
+                rhs_beta = G.T @ u + XtWX_beta @ beta
                 beta_new = _safe_solve(
                     XtWX_beta + 1e-8 * np.eye(X.shape[1]), rhs_beta
                 )
-- 
2.43.0


From 89c073a2267f2ee72ceda2bfd7e0c2198adf5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 088/117] fix: CLRegression returned mu, kappa and
 log_likelihood of other coefficients at max_iter

---
 pycircstat2/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 1c01e94..e57a50e 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -310,7 +310,8 @@ class CLRegression:
                 print(
                     f"Iteration {iter_count + 1}: Log-Likelihood = {log_likelihood:.5f}, diff = {diff:.2e}"
                 )
-            if diff < self.tol:
+            if diff < self.tol or iter_count == self.max_iter - 1:
+                # keep the coefficients that mu, kappa and log_likelihood belong to
                 break
 
             beta, alpha, gamma = beta_new, alpha_new, gamma_new
-- 
2.43.0


From 89adde8ce677e20e271239b1ead2dcde02603105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 089/117] fix: nonparametric circ_corrcc depended on the turn
 the angles were given on

---
 pycircstat2/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 535fb87..e46ca38 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -261,8 +261,9 @@ def _circ_corrcc_np(
         raise ValueError("At least three paired observations are required for the nonparametric test.")
     C = 2 * np.pi / n
 
-    rank_a = rankdata(a_alpha)
-    rank_b = rankdata(b_alpha)
+    # circular ranks: every angle on the same turn
+    rank_a = rankdata(np.mod(a_alpha, 2 * np.pi))
+    rank_b = rankdata(np.mod(b_alpha, 2 * np.pi))
     rank_diff = rank_a - rank_b
     rank_sum = rank_a + rank_b
 
-- 
2.43.0


From 4c4532af909cbf84f87553c1bbdea4abc5756543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 090/117] fix: CCRegression p-values counted one predictor's
 coefficients for any number of predictors

---
 pycircstat2/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index e57a50e..3459da0 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -792,7 +792,7 @@ class CCRegression:
 
             denom_cos = float(residual_cos.T @ residual_cos)
             denom_sin = float(residual_sin.T @ residual_sin)
-            adj = max(n - (2 * order + 1), 1)
+            adj = max(n - X.shape[1], 1)
             T1 = (
                 adj
                 * float(residual_cos.T @ N @ residual_cos)
-- 
2.43.0


From a18721c1bcff816962c4b9b342c08cbbf4b1604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 091/117] fix: CCRegression inverted singular matrices when
 harmonics coincide on the predictor's grid

With e.g. four predictor directions sin(2x) is rounding noise: p-values
(and, for a singular design, the fit itself) were noise, down to p = 0.
Terms that add nothing are dropped from the degrees of freedom, and there
is no test when all of them are.
---
 pycircstat2/regression.py | 48 ++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 3459da0..058725c 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -753,8 +753,10 @@ class CCRegression:
 
         design_matrix = [np.ones(n)] + cos_terms + sin_terms
         X = np.column_stack(design_matrix)
-        beta_cos, _, _, _ = lstsq(X, Y_cos)
-        beta_sin, _, _, _ = lstsq(X, Y_sin)
+        # harmonics can coincide on a grid of directions: drop rounding-level directions
+        cond = 1e-10
+        beta_cos, _, rank, _ = lstsq(X, Y_cos, cond=cond)
+        beta_sin, _, _, _ = lstsq(X, Y_sin, cond=cond)
 
         # Fitted values
         cos_fit = X @ beta_cos
@@ -774,38 +776,28 @@ class CCRegression:
             x_col = self.x[:, j]
             higher_order_cos.append(np.cos((order + 1) * x_col))
             higher_order_sin.append(np.sin((order + 1) * x_col))
-        if higher_order_cos:
-            W = np.column_stack(higher_order_cos + higher_order_sin)
-        else:
-            W = np.empty((n, 0))
+        W = np.column_stack(higher_order_cos + higher_order_sin)
 
-        # Projection matrix for the current model
-        if W.size:
-            XtX = X.T @ X
-            M = X @ _safe_inverse(XtX) @ X.T
-            H = W.T @ (np.eye(n) - M) @ W
-            H_inv = _safe_inverse(H)
-            N = W @ H_inv @ W.T
+        # Gain of the higher-order terms over the current model
+        XW = np.column_stack([X, W])
+        delta_cos, _, rank_W, _ = lstsq(XW, Y_cos - cos_fit, cond=cond)
+        delta_sin, _, _, _ = lstsq(XW, Y_sin - sin_fit, cond=cond)
+        df = rank_W - rank
 
-            residual_cos = Y_cos - X @ beta_cos
-            residual_sin = Y_sin - X @ beta_sin
+        if df > 0:
+            residual_cos = Y_cos - cos_fit
+            residual_sin = Y_sin - sin_fit
+            gain_cos = XW @ delta_cos
+            gain_sin = XW @ delta_sin
 
             denom_cos = float(residual_cos.T @ residual_cos)
             denom_sin = float(residual_sin.T @ residual_sin)
-            adj = max(n - X.shape[1], 1)
-            T1 = (
-                adj
-                * float(residual_cos.T @ N @ residual_cos)
-                / max(denom_cos, 1e-12)
-            )
-            T2 = (
-                adj
-                * float(residual_sin.T @ N @ residual_sin)
-                / max(denom_sin, 1e-12)
-            )
+            adj = max(n - rank, 1)
+            T1 = adj * float(gain_cos @ gain_cos) / max(denom_cos, 1e-12)
+            T2 = adj * float(gain_sin @ gain_sin) / max(denom_sin, 1e-12)
 
-            p1 = 1 - chi2.cdf(T1, W.shape[1])
-            p2 = 1 - chi2.cdf(T2, W.shape[1])
+            p1 = 1 - chi2.cdf(T1, df)
+            p2 = 1 - chi2.cdf(T2, df)
             p_values = np.array([p1, p2], dtype=float)
         else:
             p_values = np.array([np.nan, np.nan], dtype=float)
-- 
2.43.0


From 1b46378eb9629bae0e8126288b8ea7922d31f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 092/117] fix: circ_corrcc(strict=True) never refused, it read
 the p-value from an attribute that does not exist

---
 pycircstat2/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index e46ca38..d7793b4 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -95,7 +95,8 @@ def _coerce_angles(
     """Return angle array (in radians) and mean p-value if available."""
 
     if isinstance(data, Circular):
-        return np.asarray(data.alpha, dtype=float), getattr(data, "mean_pval", None)
+        mean_test = getattr(data, "mean_test_result", None)
+        return np.asarray(data.alpha, dtype=float), getattr(mean_test, "pval", None)
 
     array = np.asarray(data, dtype=float)
     if array.ndim == 0:
-- 
2.43.0


From c5ba27c3c36a609fe3be30ba07ba6de5f684644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 093/117] fix: entropy of cartwright and wrapcauchy missed the
 peak of very concentrated laws

---
 pycircstat2/distributions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index fa07dcb..8378f38 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1809,6 +1809,12 @@ class cartwright_gen(CircularContinuous):
         inv = 1 / zeta
         return (0.5 * (1 + np.cos(x - mu))) ** inv / (2 * beta_fn(0.5, inv + 0.5))
 
+    def _entropy(self, mu, zeta):
+        # cos^2((X - mu) / 2) is Beta(1/zeta + 1/2, 1/2); quadrature misses the peak for small zeta
+        inv = 1 / zeta
+        mean_log = digamma(inv + 0.5) - digamma(inv + 1.0)
+        return np.log(2 * beta_fn(0.5, inv + 0.5)) - inv * mean_log
+
     def pdf(self, x, mu, zeta, *args, **kwargs):
         r"""
         Probability density function of the Cartwright distribution.
@@ -2858,6 +2864,10 @@ class wrapcauchy_gen(CircularContinuous):
         denom = (1 - rho) ** 2 + 4 * rho * np.sin(0.5 * (x - mu)) ** 2
         return (1 - rho**2) / (2 * np.pi * denom)
 
+    def _entropy(self, mu, rho):
+        # quadrature misses the peak for rho close to 1
+        return np.log(2 * np.pi * (1 - rho**2))
+
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
         Probability density function of the Wrapped Cauchy distribution.
-- 
2.43.0


From e1693d12c150d2ff07cf2077c8719a1083ade7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 094/117] fix: CLRegression returned NaN where the
 concentration update diverged

---
 pycircstat2/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 058725c..934612f 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -250,7 +250,7 @@ class CLRegression:
                 # Step 2: Update gamma
                 a1_kappa = self._A1(kappa)
                 a1_prime = self._A1_prime(kappa)
-                if np.any(np.isclose(a1_prime, 0.0)):
+                if not np.all(np.isfinite(a1_prime)) or np.any(np.isclose(a1_prime, 0.0)):
                     raise ValueError("Encountered zero derivative in concentration update.")
                 residuals_gamma = np.cos(theta - mu) - a1_kappa
                 y_gamma = residuals_gamma / (a1_prime * kappa)
@@ -288,7 +288,7 @@ class CLRegression:
                 # Step 3: Update gamma
                 a1_kappa = self._A1(kappa)
                 a1_prime = self._A1_prime(kappa)
-                if np.any(np.isclose(a1_prime, 0.0)):
+                if not np.all(np.isfinite(a1_prime)) or np.any(np.isclose(a1_prime, 0.0)):
                     raise ValueError("Encountered zero derivative in concentration update.")
                 residuals_gamma = np.cos(raw_deviation - mu) - a1_kappa
                 y_gamma = residuals_gamma / (a1_prime * kappa)
-- 
2.43.0


From 209ce779c6873497fafda02750ac26c9d4738952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 095/117] fix: CLRegression concentration updates overshot and
 settled on a lower likelihood than the start

---
 pycircstat2/regression.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 934612f..5ecaacf 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -205,6 +205,14 @@ class CLRegression:
         a1 = A1(kappa)
         return 1 - a1 / kappa - a1**2
 
+    def _profile_log_likelihood(self, beta, alpha, gamma) -> float:
+        """Log-likelihood at the best mean direction for the given coefficients."""
+        kappa = np.exp(alpha + self.X @ gamma)
+        raw_deviation = self.theta - 2 * np.arctan(self.X @ beta)
+        S = np.sum(kappa * np.sin(raw_deviation))
+        C = np.sum(kappa * np.cos(raw_deviation))
+        return float(np.hypot(S, C) - np.sum(self._log_i0(kappa)))
+
     def _fit(self):
         theta = self.theta
         n = len(theta)
@@ -314,6 +322,22 @@ class CLRegression:
                 # keep the coefficients that mu, kappa and log_likelihood belong to
                 break
 
+            if self.model_type != "mean":
+                # a full scoring step can overshoot: halve it until the likelihood does not drop
+                for _ in range(30):
+                    if (
+                        self._profile_log_likelihood(
+                            beta_new if self.model_type == "mixed" else np.zeros_like(beta),
+                            alpha_new,
+                            gamma_new,
+                        )
+                        >= log_likelihood - self.tol
+                    ):
+                        break
+                    beta_new = 0.5 * (beta + beta_new)
+                    alpha_new = 0.5 * (alpha + alpha_new)
+                    gamma_new = 0.5 * (gamma + gamma_new)
+
             beta, alpha, gamma = beta_new, alpha_new, gamma_new
             log_likelihood_old = log_likelihood
 
-- 
2.43.0


From 6c03f46445d3c5704598a4099ddf4d909d8148c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 096/117] fix: CCRegression fitted an empty sample

---
 pycircstat2/regression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 5ecaacf..6d36654 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -740,6 +740,8 @@ class CCRegression:
         arr_np = np.asarray(arr, dtype=float)
         if arr_np.ndim == 0:
             raise ValueError("Input must be at least one-dimensional.")
+        if arr_np.size == 0:
+            raise ValueError("Circular input must contain at least one observation.")
         if not np.all(np.isfinite(arr_np)):
             raise ValueError("Circular input contains non-finite values.")
         return np.mod(arr_np, 2 * np.pi)
-- 
2.43.0


From fa763388d601350fccac6b9d1e2eac90a7d65fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:09 +0000
Subject: [PATCH 097/117] fix: jonespewsey maximum likelihood fits of small
 samples stopped at the starting values

---
 pycircstat2/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8378f38..8635e8a 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5253,7 +5253,9 @@ class jonespewsey_gen(CircularContinuous):
             }
         else:
             bounds = [(mu_mom - np.pi, mu_mom + np.pi), kappa_bounds, psi_bounds]
-            init = np.array([mu_mom, kappa_mom, _jp_psi_start(psi_init, psi_bounds)], dtype=float)
+            # below _JP_KAPPA_TOL the density is uniform and the gradient vanishes
+            kappa_init = float(np.clip(max(kappa_mom, 1e-2), kappa_bounds[0], kappa_bounds[1]))
+            init = np.array([mu_mom, kappa_init, _jp_psi_start(psi_init, psi_bounds)], dtype=float)
             result = minimize(
                 nll,
                 init,
-- 
2.43.0


From cc7ca730e1639c2b93a723e1c872ca78dd6e885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 098/117] fix: Jones-Pewsey fits failed when the line search
 stopped at rounding noise

---
 pycircstat2/distributions.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8635e8a..b09cd2d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5263,6 +5263,7 @@ class jonespewsey_gen(CircularContinuous):
                 bounds=bounds,
                 **kwargs,
             )
+            result, optimizer = _simplex_if_stalled(nll, result, bounds, optimizer)
             if not result.success:
                 raise RuntimeError(f"jonespewsey.fit(method='mle') failed: {result.message}")
             mu_hat = self._wrap_direction(float(result.x[0]))
@@ -5296,6 +5297,16 @@ _JP_KAPPA_TOL = 1e-3
 _JP_PSI_TOL = 1e-6
 
 
+def _simplex_if_stalled(nll, result, bounds, optimizer):
+    """Continue with a simplex search where a line search stopped at rounding noise."""
+    if result.success or optimizer == "Nelder-Mead" or not np.all(np.isfinite(result.x)):
+        return result, optimizer
+    fallback = minimize(nll, result.x, method="Nelder-Mead", bounds=bounds)
+    if fallback.success and fallback.fun <= result.fun:
+        return fallback, "Nelder-Mead"
+    return result, optimizer
+
+
 def _jp_psi_start(psi, psi_bounds):
     # The density does not depend on psi for |psi| < _JP_PSI_TOL: a
     # finite-difference gradient taken there vanishes.
@@ -5925,6 +5936,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 bounds=bounds,
                 **kwargs,
             )
+            result, optimizer = _simplex_if_stalled(total_nll, result, bounds, optimizer)
             if not result.success:
                 raise RuntimeError("Sine-skewed JP fit refinement failed: " + result.message)
             xi_hat = self._wrap_direction(float(result.x[0]))
@@ -6437,6 +6449,7 @@ class jonespewsey_asym_gen(CircularContinuous):
             bounds=bounds,
             **kwargs,
         )
+        result, optimizer = _simplex_if_stalled(nll, result, bounds, optimizer)
         if not result.success:
             raise RuntimeError("jonespewsey_asym.fit failed: " + result.message)
 
-- 
2.43.0


From 242fd0fe8e4e9446a681547f4de299ac531e2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 099/117] fix: circular median of data grouped in an odd number
 of classes

---
 pycircstat2/descriptive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 78d11fb..efc1429 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -634,8 +634,9 @@ def _circ_median_grouped(
     halfcircle_left = n - halfcircle_right
 
     if n_bins % 2 != 0:
-        offset = np.roll(w, 2) / 2  # remove half of the previous bin freq
-        halfcircle_left = halfcircle_left - offset
+        # the right half circle ends in the middle of its last bin
+        offset = np.roll(w, -(n_bins + 1) // 2) / 2
+        halfcircle_left = halfcircle_left + offset
 
     # find where half-freq located.
     halffreq = np.round(n / 2, 5)
-- 
2.43.0


From b5ab008cd72431de7a382f6753f17b23fbb5a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 100/117] fix: grouped data listed in another order or rotated
 got a wrong class width and median

---
 pycircstat2/base.py        |  3 ++-
 pycircstat2/descriptive.py | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 98bea3a..c5e6483 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from .clustering import MovM
 from .descriptive import (
+    _class_width,
     angular_std,
     circ_kappa,
     circ_kurtosis,
@@ -203,7 +204,7 @@ class Circular:
                 ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
-                self.bin_size = bin_size = np.diff(alpha).min()
+                self.bin_size = bin_size = _class_width(alpha)
                 self.alpha_lb = alpha - bin_size / 2
                 self.alpha_ub = alpha + bin_size / 2
 
diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index efc1429..467fdfd 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -477,7 +477,7 @@ def circ_var(
     if bin_size is None and w is not None and not np.all(w == w[0]):
         if alpha is None:
             raise ValueError("If `bin_size` is None but `w` is provided, `alpha` must be given.")
-        bin_size = float(np.diff(alpha).min())
+        bin_size = _class_width(alpha)
 
     # Correct `r` if binning is applied
     rc = r if bin_size is None or bin_size == 0 else r * (bin_size / (2 * np.sin(bin_size / 2)))
@@ -487,6 +487,14 @@ def circ_var(
     return variance
 
 
+def _class_width(alpha: np.ndarray) -> float:
+    """Width of the classes whose centres are given, wherever zero lies among them."""
+    centres = np.sort(angmod(np.asarray(alpha, dtype=float)))
+    gaps = np.diff(centres, append=centres[:1] + 2 * np.pi)
+    gaps = gaps[gaps > 1e-8]  # one direction may be listed several times
+    return float(gaps.min()) if gaps.size > 1 else 0.0
+
+
 def circ_std(
     alpha: Optional[np.ndarray] = None,
     w: Optional[np.ndarray] = None,
@@ -622,6 +630,10 @@ def _circ_median_grouped(
 ) -> Union[float, np.ndarray]:
     n = np.sum(w)  # sample size
     n_bins = len(alpha)  # number of intervals
+    # the classes follow each other round the circle
+    alpha = angmod(alpha)
+    order = np.argsort(alpha)
+    alpha, w = alpha[order], w[order]
     bin_size = np.diff(alpha).min()
 
     # median for grouped data operated on upper bound of bins
-- 
2.43.0


From fed93b09bbdd974dd4a1541cc6a87021e24e0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 101/117] fix: Circular refused data grouped in 61, 122, ...
 classes

---
 pycircstat2/base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index c5e6483..6040e4f 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -199,9 +199,6 @@ class Circular:
                 self.bin_size = bin_size = 0.0
             else:  # grouped data
                 assert len(w) == len(alpha), "`w` and `data` must be the same length."
-                assert len(w) == len(
-                    np.arange(0, 2 * np.pi, 2 * np.pi / len(w))
-                ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
                 self.bin_size = bin_size = _class_width(alpha)
-- 
2.43.0


From 325e7650bb32bb05d31d40149637a7bf24e9e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 102/117] fix: triangular quantiles of nearly uniform laws lost
 digits to cancellation

---
 pycircstat2/distributions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b09cd2d..8c99414 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1054,9 +1054,10 @@ class triangular_gen(CircularContinuous):
                     0.0,
                     None,
                 )
+                # the smaller root, without the cancellation of -b - sqrt(disc)
                 res_general[mask_left] = (
-                    -b_left[mask_left] - np.sqrt(disc_left)
-                ) / (2 * a_left[mask_left])
+                    2 * c_left / (-b_left[mask_left] + np.sqrt(disc_left))
+                )
 
             if np.any(~mask_left):
                 c_right = 2 * np.pi**2 * rho_g[~mask_left] - 8 * q_g[~mask_left]
@@ -1065,9 +1066,12 @@ class triangular_gen(CircularContinuous):
                     0.0,
                     None,
                 )
-                res_general[~mask_left] = (
-                    -b_right[~mask_left] + np.sqrt(disc_right)
-                ) / (2 * a_right[~mask_left])
+                b_r, root = b_right[~mask_left], np.sqrt(disc_right)
+                res_general[~mask_left] = np.where(
+                    b_r > 0.0,
+                    -2 * c_right / np.where(b_r > 0.0, b_r + root, 1.0),
+                    (-b_r + root) / (2 * a_right[~mask_left]),
+                )
 
             result[mask_general] = res_general
 
-- 
2.43.0


From f3985f6d7114ef1f01af2fcef377340e565d0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 103/117] fix: plots dropped observations outside [0, 2 pi)
 from the rose and did not stack them

---
 pycircstat2/visualization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 7ec1368..9931df0 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -8,6 +8,7 @@ from pycircstat2.descriptive import (
     compute_smooth_params,
     nonparametric_density_estimation,
 )
+from pycircstat2.utils import angmod
 
 
 # Recursive function to merge user config into defaults
@@ -212,7 +213,7 @@ def circ_plot(
     if not circ_data.grouped:
 
         # plot scatter
-        alpha, counts = np.unique(circ_data.alpha.round(3), return_counts=True)
+        alpha, counts = np.unique(angmod(circ_data.alpha).round(3), return_counts=True)
         alpha = np.repeat(alpha, counts)
 
         if config["outward"]:
@@ -306,7 +307,7 @@ def circ_plot(
     if config["rose"]:
 
         if not circ_data.grouped:
-            alpha = circ_data.alpha
+            alpha = angmod(circ_data.alpha)
             w, beta = np.histogram(
                 alpha, bins=config["rose"]["bins"], range=(0, 2 * np.pi)
             )  # np.histogram return bin edges
-- 
2.43.0


From 9cb188e7c4dacb092b5db034756d924db8a7b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 104/117] fix: plots of axial data drew a confidence interval
 across the origin as an arc over the far side

---
 pycircstat2/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 9931df0..1e2ef11 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -201,6 +201,9 @@ def circ_plot(
     # Merge user config with defaults recursively
     config = _merge_dicts(DEFAULT_CIRC_PLOT_CONFIG, config or {})
     
+    # axes (undirected) repeat after half a turn
+    period = np.pi if hasattr(circ_data, "alpha_double") else 2 * np.pi
+
     # check axes
     if ax is None:
         fig, ax = plt.subplots(
@@ -387,7 +390,7 @@ def circ_plot(
                 x1 = np.linspace(circ_data.mean_lb, circ_data.mean_ub, num=50)
             else:
                 x1 = np.linspace(
-                    circ_data.mean_lb, circ_data.mean_ub + 2 * np.pi, num=50
+                    circ_data.mean_lb, circ_data.mean_ub + period, num=50
                 )
 
             # plot arc
@@ -418,7 +421,7 @@ def circ_plot(
                 x1 = np.linspace(circ_data.median_lb, circ_data.median_ub, num=50)
             else:
                 x1 = np.linspace(
-                    circ_data.median_lb, circ_data.median_ub + 2 * np.pi, num=50
+                    circ_data.median_lb, circ_data.median_ub + period, num=50
                 )
             # plot arc
             ax.plot(
-- 
2.43.0


From f0c5def791d9be9509c74281c921777efaeeaf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 105/117] fix: binned axial data kept one angle per observation
 next to one count per class

---
 pycircstat2/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 6040e4f..d7c9c4c 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -509,7 +509,8 @@ class Axial(Circular):
         self.data_double = data_double
         self.data = data
         self.alpha_double = self.alpha
-        self.alpha = data2rad(data, k=self.full_cycle)
+        # binned data are represented by the centres of their classes
+        self.alpha = data2rad(data, k=self.full_cycle) if bins is None else self.alpha_double / 2
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
-- 
2.43.0


From 8d1eabad492cc4c2c8c1cfe02a9aa1d4f54f6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 106/117] fix: Axial(rotate=) turned the doubled angles but not
 the axes

---
 pycircstat2/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d7c9c4c..ac9c8c6 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -496,6 +496,9 @@ class Axial(Circular):
         else:
             data_double = 2 * data  # rejected below: `full_cycle` is missing
 
+        # turning the axes by an angle turns the doubled data by twice that angle
+        rotate = kwargs.pop("rotate", None)
+
         super().__init__(
             data=data_double,
             w=w,
@@ -503,6 +506,7 @@ class Axial(Circular):
             unit=unit,
             full_cycle=full_cycle,
             n_clusters_max=n_clusters_max,
+            rotate=None if rotate is None else 2 * rotate,
             **kwargs,
         )
 
@@ -511,6 +515,8 @@ class Axial(Circular):
         self.alpha_double = self.alpha
         # binned data are represented by the centres of their classes
         self.alpha = data2rad(data, k=self.full_cycle) if bins is None else self.alpha_double / 2
+        if rotate is not None and bins is None:
+            self.alpha = rotate_data(self.alpha, rotate, unit="radian")
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
-- 
2.43.0


From 0a850b3389860117568b0acfbc14fb21bcbe2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 107/117] fix: Jones-Pewsey laws with a concentration below
 0.001 were replaced by the uniform law

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8c99414..ae1678c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5297,7 +5297,7 @@ jonespewsey = jonespewsey_gen(name="jonespewsey")
 ####################################
 
 
-_JP_KAPPA_TOL = 1e-3
+_JP_KAPPA_TOL = 1e-9
 _JP_PSI_TOL = 1e-6
 
 
-- 
2.43.0


From e268d3f47ce71d225d7d584fbd7dce472fc9a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 108/117] fix: median of data grouped in an odd number of
 classes failed on balanced tables and ignored the bend inside a class

---
 pycircstat2/descriptive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 467fdfd..0877f2e 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -635,6 +635,11 @@ def _circ_median_grouped(
     order = np.argsort(alpha)
     alpha, w = alpha[order], w[order]
     bin_size = np.diff(alpha).min()
+    # opposite to a class boundary lies the middle of a class: use half classes
+    if n_bins % 2 != 0:
+        alpha = np.column_stack([alpha - bin_size / 4, alpha + bin_size / 4]).ravel()
+        w = np.repeat(w, 2) / 2
+        bin_size = bin_size / 2
 
     # median for grouped data operated on upper bound of bins
     alpha_ub = alpha + bin_size / 2
@@ -645,11 +650,6 @@ def _circ_median_grouped(
     )
     halfcircle_left = n - halfcircle_right
 
-    if n_bins % 2 != 0:
-        # the right half circle ends in the middle of its last bin
-        offset = np.roll(w, -(n_bins + 1) // 2) / 2
-        halfcircle_left = halfcircle_left + offset
-
     # find where half-freq located.
     halffreq = np.round(n / 2, 5)
     halfcircle_range = np.round(
-- 
2.43.0


From a00299da508b484ecd0c9d2d581ea28e7ecbe7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 109/117] fix: frequencies a rounding error below a whole
 number lost an observation

---
 pycircstat2/base.py        | 4 ++--
 pycircstat2/descriptive.py | 2 +-
 pycircstat2/hypothesis.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index ac9c8c6..32e2e73 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -219,7 +219,7 @@ class Circular:
             self.bin_size = bin_size = np.diff(alpha).min()
 
         # sample size
-        self.n = n = np.sum(w).astype(int)
+        self.n = n = np.round(np.sum(w)).astype(int)
 
         # angular mean and resultant vector length
         self.mean, self.r = (_, r) = circ_mean_and_r(alpha=alpha, w=w)
@@ -305,7 +305,7 @@ class Circular:
                     unit="radian",
                     random_seed=0,
                 )
-                m.fit(np.repeat(alpha, w))
+                m.fit(np.repeat(alpha, np.round(w).astype(int)))
                 self.mixtures.append(m)
             self.mixtures_BIC = [m.compute_BIC() for m in self.mixtures]
             if not np.isnan(self.mixtures_BIC).all():
diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 0877f2e..cc8aced 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -937,7 +937,7 @@ def circ_mean_ci(
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
         if w is not None:
-            alpha = np.repeat(alpha, np.asarray(w).astype(int))
+            alpha = np.repeat(alpha, np.round(w).astype(int))
         (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index ebf6104..31d626a 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -636,7 +636,7 @@ def V_test(
             w = np.asarray(w, dtype=float)
             if w.shape != alpha.shape:
                 raise ValueError("`w` must have the same shape as `alpha`.")
-        n = int(np.sum(w))
+        n = int(np.round(np.sum(w)))
         if n <= 0:
             raise ValueError("Sample size inferred from `w` must be positive.")
         mean, r = circ_mean_and_r(alpha, w)
@@ -1831,7 +1831,7 @@ def rao_spacing_test(
             raise ValueError("`w` must contain non-negative frequencies.")
         if not np.all(np.isclose(w, np.round(w))):
             raise ValueError("`w` must contain integer frequencies.")
-        w = w.astype(int)
+        w = np.round(w).astype(int)
         if w.shape != alpha.shape:
             raise ValueError("`w` must have the same shape as `alpha`.")
         n = int(np.sum(w))
-- 
2.43.0


From 54f5e2fb18ac909a59617034b4553ac3c172a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 110/117] fix: jonespewsey_asym.fit started outside nu_bounds
 that exclude zero

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ae1678c..7a23810 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6415,7 +6415,7 @@ class jonespewsey_asym_gen(CircularContinuous):
             **base_kwargs,
         )
         xi_init, kappa_init, psi_init = init_estimates
-        nu_init = 0.0
+        nu_init = float(np.clip(0.0, *nu_bounds))
 
         kappa_low, kappa_high = kappa_bounds
         psi_low, psi_high = psi_bounds
-- 
2.43.0


From 7ff30ee08e7cc11c1f15cf1edf56e90ff0cb54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:31 +0000
Subject: [PATCH 111/117] fix: fits crashed with optimizers that report no
 gradient vector or no iteration count

---
 pycircstat2/distributions.py | 40 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7a23810..5b90014 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1740,10 +1740,8 @@ class cardioid_gen(CircularContinuous):
                     "loglik": float(-result.fun),
                     "n_effective": float(n_eff),
                     "converged": bool(result.success),
-                    "nit": result.nit,
-                    "grad_norm": float(np.linalg.norm(result.jac))
-                    if getattr(result, "jac", None) is not None
-                    else np.nan,
+                    "nit": getattr(result, "nit", None),
+                    "grad_norm": _gradient_norm(result),
                     "optimizer": optimizer,
                 }
 
@@ -2237,10 +2235,8 @@ class cartwright_gen(CircularContinuous):
                 "loglik": float(-result.fun),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
-                "nit": result.nit,
-                "grad_norm": float(np.linalg.norm(result.jac))
-                if getattr(result, "jac", None) is not None
-                else np.nan,
+                "nit": getattr(result, "nit", None),
+                "grad_norm": _gradient_norm(result),
                 "optimizer": optimizer,
             }
 
@@ -2810,7 +2806,7 @@ class wrapnorm_gen(CircularContinuous):
                 "loglik": float(-result.fun),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
-                "nit": result.nit,
+                "nit": getattr(result, "nit", None),
                 "grad_norm": np.nan,
                 "optimizer": optimizer,
             }
@@ -3248,10 +3244,8 @@ class wrapcauchy_gen(CircularContinuous):
                 "loglik": float(-result.fun),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
-                "nit": result.nit,
-                "grad_norm": float(np.linalg.norm(result.jac))
-                if getattr(result, "jac", None) is not None
-                else np.nan,
+                "nit": getattr(result, "nit", None),
+                "grad_norm": _gradient_norm(result),
                 "optimizer": optimizer,
             }
 
@@ -3875,10 +3869,8 @@ class vonmises_gen(CircularContinuous):
                 "loglik": float(-result.fun),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
-                "nit": result.nit,
-                "grad_norm": float(np.linalg.norm(result.jac))
-                if getattr(result, "jac", None) is not None
-                else np.nan,
+                "nit": getattr(result, "nit", None),
+                "grad_norm": _gradient_norm(result),
                 "optimizer": optimizer,
             }
 
@@ -5280,7 +5272,7 @@ class jonespewsey_gen(CircularContinuous):
                 "loglik": float(-final_nll),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
-                "nit": result.nit,
+                "nit": getattr(result, "nit", None),
                 "optimizer": optimizer,
                 "initial": (mu_mom, kappa_mom, psi_init),
             }
@@ -5301,6 +5293,14 @@ _JP_KAPPA_TOL = 1e-9
 _JP_PSI_TOL = 1e-6
 
 
+def _gradient_norm(result):
+    # `trust-constr` keeps the gradient in `grad` and the constraint Jacobians in `jac`
+    grad = getattr(result, "grad", None)
+    if grad is None:
+        grad = getattr(result, "jac", None)
+    return np.nan if grad is None else float(np.linalg.norm(grad))
+
+
 def _simplex_if_stalled(nll, result, bounds, optimizer):
     """Continue with a simplex search where a line search stopped at rounding noise."""
     if result.success or optimizer == "Nelder-Mead" or not np.all(np.isfinite(result.x)):
@@ -5949,7 +5949,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
             lmbd_hat = float(np.clip(result.x[3], lmbd_bounds[0], lmbd_bounds[1]))
             info["refinement"] = {
                 "success": bool(result.success),
-                "nit": result.nit,
+                "nit": getattr(result, "nit", None),
                 "optimizer": optimizer,
             }
 
@@ -6471,7 +6471,7 @@ class jonespewsey_asym_gen(CircularContinuous):
                 "base": base_info,
                 "loglik": loglik,
                 "converged": bool(result.success),
-                "nit": result.nit,
+                "nit": getattr(result, "nit", None),
                 "optimizer": optimizer,
                 "n_effective": float(n_eff),
             }
-- 
2.43.0


From 42dd5ecde9b4d05bd8ed1b2bbb49849b87debd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 112/117] fix: katojones.fit could stop at rho = gamma, where
 its polar search coordinates are singular

---
 pycircstat2/distributions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5b90014..c178713 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8820,6 +8820,21 @@ class katojones_gen(CircularContinuous):
             if not result.success:
                 raise RuntimeError(f"Maximum likelihood fit failed: {result.message}")
 
+        if result.x[2] < 1e-6:
+            # The centre of the disc is a singular point of its polar coordinates
+            # (`phi` has no effect there): leave it in every direction.
+            for phi in result.x[3] + 0.5 * np.pi * np.arange(4):
+                restart = minimize(
+                    objective,
+                    np.array([result.x[0], result.x[1], 0.05, phi]),
+                    method=optimizer,
+                    bounds=[*bounds[:3], (phi - np.pi, phi + np.pi)],
+                    options=options,
+                    **minimize_kwargs,
+                )
+                if restart.success and restart.fun < result.fun:
+                    result = restart
+
         mu_hat, gamma_hat, s_hat, phi_hat = result.x
         mu_hat = self._wrap_direction(float(mu_hat))
         gamma_hat = float(np.clip(gamma_hat, 0.0, 1.0 - 1e-9))
-- 
2.43.0


From a569bb8dc08a90f138527ac8efed492cb27f4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 113/117] fix: circ_quantile took every type but 7 for
 midpoints and returned garbage for integer probabilities of an undefined
 median

---
 pycircstat2/descriptive.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index cc8aced..46eabfd 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1740,6 +1740,20 @@ def circ_range(alpha: np.ndarray) -> np.float64:
     return 2 * np.pi - np.max(spacings)  # Circular range
 
 
+# R's quantile types (Hyndman & Fan, 1996) under their NumPy names
+_QUANTILE_METHODS = {
+    1: "inverted_cdf",
+    2: "averaged_inverted_cdf",
+    3: "closest_observation",
+    4: "interpolated_inverted_cdf",
+    5: "hazen",
+    6: "weibull",
+    7: "linear",
+    8: "median_unbiased",
+    9: "normal_unbiased",
+}
+
+
 def circ_quantile(
     alpha: np.ndarray,
     probs: Union[float, np.ndarray] = np.array([0, 0.25, 0.5, 0.75, 1.0]),
@@ -1759,7 +1773,7 @@ def circ_quantile(
     probs : float or np.ndarray, optional
         Probabilities at which to compute quantiles. Default is `[0, 0.25, 0.5, 0.75, 1.0]`.
     type : int, optional
-        Quantile algorithm type (default `7`, matches R’s default quantile type).
+        Quantile algorithm, one of R's types 1 to 9 (default `7`, as in R).
 
     Returns
     -------
@@ -1772,6 +1786,9 @@ def circ_quantile(
     - Fisher (1993), Section 2.3.2.
     """
 
+    if type not in _QUANTILE_METHODS:
+        raise ValueError("`type` must be one of R's quantile types 1 to 9.")
+
     # Convert to numpy array
     alpha = np.asarray(alpha)
     probs = np.atleast_1d(probs)
@@ -1781,7 +1798,7 @@ def circ_quantile(
 
     # If the median is NaN (e.g., uniform data), return NaNs
     if np.isnan(circular_median):
-        return np.full_like(probs, np.nan)
+        return np.full(probs.shape, np.nan)
 
     # Transform data relative to circular median
     shifted_alpha = (alpha - circular_median) % (2 * np.pi)
@@ -1791,7 +1808,7 @@ def circ_quantile(
 
     # Compute linear quantiles on transformed data
     linear_quantiles = np.quantile(
-        shifted_alpha, probs, method="linear" if type == 7 else "midpoint"
+        shifted_alpha, probs, method=_QUANTILE_METHODS[type]
     )
 
     # Transform back to original circular space
-- 
2.43.0


From 85f04f883f5cea0ff1e0516d85b27c880d9700fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 114/117] fix: sectors of grouped axial data were drawn twice
 as wide as their classes

---
 pycircstat2/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 1e2ef11..4918c45 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -322,7 +322,9 @@ def circ_plot(
         w_sqrt = np.sqrt(w)
         w_norm = w_sqrt / w_sqrt.max()
 
-        width = config.get("width", 2 * np.pi / len(beta))
+        # the classes of grouped axes share half a turn
+        span = period if circ_data.grouped else 2 * np.pi
+        width = config.get("width", span / len(beta))
 
         bars = ax.bar(
             beta,
-- 
2.43.0


From e6e1859e136a5aa2571b4eda2c12e9e4bd4b8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 115/117] fix: dials of cycles other than 24 hours were
 labelled with the hours of a day

---
 pycircstat2/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 4918c45..1aa1cf1 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -448,7 +448,8 @@ def circ_plot(
     if circ_data.unit == "hour":
         position_major = np.arange(0, 2 * np.pi, 2 * np.pi / 8)
         position_minor = np.arange(0, 2 * np.pi, 2 * np.pi / 24)
-        labels = [f"{i}:00" for i in np.arange(0, circ_data.full_cycle, 3)]
+        minutes = np.round(np.arange(8) * circ_data.full_cycle * 60 / 8).astype(int)
+        labels = [f"{m // 60}:{m % 60:02d}" for m in minutes]
         ax.xaxis.set_major_locator(ticker.FixedLocator(position_major))
         ax.xaxis.set_minor_locator(ticker.FixedLocator(position_minor))
         ax.xaxis.set_major_formatter(ticker.FixedFormatter(labels))
-- 
2.43.0


From a5ec3eceba86f23af526b0ce60b288586a4e7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:57 +0000
Subject: [PATCH 116/117] fix: circ_median_ci ignored the frequencies

---
 pycircstat2/descriptive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 46eabfd..a2348f7 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1275,6 +1275,9 @@ def circ_median_ci(
             "`alpha` is needed for computing the confidence interval for circular median."
         )
 
+    if w is not None:  # one entry per observation
+        alpha = np.repeat(alpha, np.round(w).astype(int))
+
     n = len(alpha)
     # order the observations around the median, so that the cut of the circle
     # at 0 never falls inside the interval
-- 
2.43.0


From 0252a0cd7ec5a8f290237bf164d94e459a160829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 117/117] fix: triangular.fit took every unknown or capitalised
 method for 'mle'

---
 pycircstat2/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c178713..323fb2a 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1220,6 +1220,10 @@ class triangular_gen(CircularContinuous):
         The MLE solves a strictly monotone score equation, so bracketing root-finding
         is robust and $O(n)$ per evaluation.
         """
+        method = str(method).lower()
+        if method not in {"moments", "mle"}:
+            raise ValueError("`method` must be either 'mle' or 'moments'.")
+
         x = np.asarray(data, dtype=float)
         x = np.mod(x, 2*np.pi)
 
-- 
2.43.0

