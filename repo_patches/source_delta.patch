From dd35d4c327172a36dba7c88423882d0de8b98fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/24] fix: rebuild cosmologies with a growth index
 (list.reverse returns None)

---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..a6a34f1 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(reversed(children[8:]))
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 44760e66701dff0df8a5abd74e637ffb69bfaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/24] fix: rebuild WeakLensing probes with bias and
 systematics in their own roles

---
 jax_cosmo/probes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..d82c9ae 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,18 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The order of the children is not the one of the constructor arguments
+        redshift_bins, multiplicative_bias = children[:2]
+        ia_bias = children[2] if aux_data["ia_enabled"] else None
+        return cls(
+            redshift_bins,
+            ia_bias=ia_bias,
+            multiplicative_bias=multiplicative_bias,
+            **aux_data
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From dd5d836cef611d1f3d8bdb56a994d04dd9302867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/24] fix: compare with the redshift of a delta distribution,
 not its parameter tuple

---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From a324e0d4885c3dad72de0aa88a580826868f5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 04/24] fix: do not store the n(z) normalisation, which may
 belong to a jax trace

---
 jax_cosmo/redshift.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..fc09459 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -27,9 +27,11 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        # The norm is not stored: it could be a tracer outliving its trace
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 8e9d940d39f448a23fca5fa0f073608cc876732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/24] fix: interpolate between the two neighbours in every
 interval and table order

---
 jax_cosmo/scipy/interpolate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..05f39c7 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -31,11 +31,10 @@ def interp(x, xp, fp):
     ind = np.clip(ind, 1, len(xp) - 2)
 
     xi = xp[ind]
-    # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
-    a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
-        xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
-    )
+    # Figure out if the query is on the upper or the lower index side of xi,
+    # for increasing as well as decreasing xp
+    other = np.where((x - xi) * (xp[-1] - xp[0]) < 0, ind - 1, ind + 1)
+    a = (fp[other] - fp[ind]) / (xp[other] - xp[ind])
     b = fp[ind] - a * xp[ind]
     return a * x + b
 
-- 
2.43.0


From 67ad453ee4b862012427ea1c3a595cca7ea6298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 06/24] fix: natural splines have a vanishing second derivative
 at the right end

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 05f39c7..b6bafa1 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -205,7 +205,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From a74eb42f981a467cedb496a9bf79747b39dfe257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/24] fix: accept scalar scale factors in the growth
 functions

---
 jax_cosmo/background.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..ef53de2 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -485,6 +485,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
@@ -509,6 +510,7 @@ def _growth_rate_ODE(cosmo, a):
     if not "background.growth_factor" in cosmo._workspace.keys():
         _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
     cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -545,6 +547,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
-- 
2.43.0


From 6dc57c76a9785f11d3633b913ea7bd13b21e9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 08/24] fix: tabulate comoving distances per requested table
 range and steps

---
 jax_cosmo/background.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ef53de2..88e9731 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -219,8 +219,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    # Check if distances have already been computed with these table settings
+    tables = cosmo._workspace.setdefault("background.radial_comoving_distance", {})
+    if not (log10_amin, steps) in tables.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,9 +234,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        tables[(log10_amin, steps)] = cache
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
+        cache = tables[(log10_amin, steps)]
 
     a = np.atleast_1d(a)
     # Return the results as an interpolation of the table
@@ -259,10 +260,9 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    # Make sure that the default table of distances has been computed
+    radial_comoving_distance(cosmo, 1.0)
+    cache = cosmo._workspace["background.radial_comoving_distance"][(-3, 256)]
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
-- 
2.43.0


From aa57c92f90ee19c67f1d42cc520d03643b74ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 09/24] fix: spline integrals need no concrete bounds

---
 jax_cosmo/scipy/interpolate.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index b6bafa1..3166249 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -433,10 +433,5 @@ class InterpolatedUnivariateSpline(object):
         ig : array_like
             Definite integral of the piecewise polynomial over [a, b]
         """
-        # Swap integration bounds if needed
-        sign = 1
-        if b < a:
-            a, b = b, a
-            sign = -1
         xs = np.array([a, b])
-        return sign * np.diff(self.antiderivative(xs))
+        return np.diff(self.antiderivative(xs))
-- 
2.43.0


From f29ab762987b4b6ebb53855117b505c022034da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 10/24] fix: integrate sigma(R) between the natural logarithms
 of kmin and kmax

---
 jax_cosmo/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 62dcfb7..416134b 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -75,7 +75,7 @@ def sigmasqr(cosmo, R, transfer_fn, kmin=0.0001, kmax=1000.0, ksteps=5, **kwargs
         pk = transfer_fn(cosmo, k, **kwargs) ** 2 * primordial_matter_power(cosmo, k)
         return k * (k * w) ** 2 * pk
 
-    y = romb(int_sigma, np.log10(kmin), np.log10(kmax), divmax=7)
+    y = romb(int_sigma, np.log(kmin), np.log(kmax), divmax=7)
     return 1.0 / (2.0 * np.pi**2.0) * y
 
 
-- 
2.43.0


From 548c82101e86ad2ffb7b3cee39696b88d936e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 11/24] fix: sign of the log determinant in the Gaussian log
 likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From eacd6d15ac2ecce3f0b35dbb33f5d226538790d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 12/24] fix: halofit nu_n coefficient of Smith et al. (2003),
 Eq. C16

---
 jax_cosmo/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 416134b..da6f7b3 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -196,7 +196,7 @@ def halofit(cosmo, k, a, transfer_fn, prescription="takahashi2012"):
         alpha_n = 1.3884 + 0.3700 * n - 0.1452 * n**2
         beta_n = 0.8291 + 0.9854 * n + 0.3401 * n**2
         mu_n = 10 ** (-3.5442 + 0.1908 * n)
-        nu_n = 10 ** (0.9585 + 1.2857 * n)
+        nu_n = 10 ** (0.9589 + 1.2857 * n)
     elif prescription == "takahashi2012":
         a_n = 10 ** (
             1.5222
-- 
2.43.0


From 1f71eabeb7a90ce852b6b15a6b48048669eb59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 13/24] fix: derivative of the transverse distance with respect
 to curvature when flat

---
 jax_cosmo/background.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 88e9731..aba095a 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -332,7 +332,10 @@ def transverse_comoving_distance(cosmo, a):
         return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # First terms of the common expansion of the two curved cases, which
+        # carry the derivatives with respect to Omega_k at Omega_k = 0
+        u = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + u / 6.0 + u**2 / 120.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
-- 
2.43.0


From 19aeb2f0168ee6c0c9211e74315efe39ce90b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 14/24] fix: no integer overflow in the spin-2 factor for
 integer multipoles

---
 jax_cosmo/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index d82c9ae..b141a07 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -72,7 +72,7 @@ def weak_lensing_kernel(cosmo, pzs, z, ell):
     # Constant term
     constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
@@ -127,7 +127,7 @@ def nla_kernel(cosmo, pzs, bias, z, ell):
     # Constant factor
     constant_factor = 1.0
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
-- 
2.43.0


From 9c79668b452a24b37c364b8b34ec62eac651ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 15/24] fix: accept integer scale factors in the expansion
 history

---
 jax_cosmo/background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index aba095a..6865f7a 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -120,8 +120,8 @@ def Esqr(cosmo, a):
     by :py:meth:`.f_de`.
     """
     return (
-        cosmo.Omega_m * np.power(a, -3)
-        + cosmo.Omega_k * np.power(a, -2)
+        cosmo.Omega_m * np.power(1.0 * a, -3)
+        + cosmo.Omega_k * np.power(1.0 * a, -2)
         + cosmo.Omega_de * np.exp(f_de(cosmo, a))
     )
 
@@ -165,7 +165,7 @@ def Omega_m_a(cosmo, a):
 
     see :cite:`2005:Percival` Eq. (6)
     """
-    return cosmo.Omega_m * np.power(a, -3) / Esqr(cosmo, a)
+    return cosmo.Omega_m * np.power(1.0 * a, -3) / Esqr(cosmo, a)
 
 
 def Omega_de_a(cosmo, a):
-- 
2.43.0


From 5870b96c670810423a60b510a880a1acd28ea4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 16/24] fix: rebuild splines from their leaves without
 validating them

JAX rebuilds registered objects with batched or placeholder leaves, for which
the constructor's input checks fail (e.g. when a vmapped function returns a
spline).
---
 jax_cosmo/scipy/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 3166249..0d4e26a 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -238,8 +238,13 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # The leaves can be anything (batched, placeholders), so the input
+        # validation of the constructor does not apply
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints = aux_data["endpoints"]
+        spline.k = aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From 7425ccaeac5347714984b07ac4e7823dc9bec883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 17/24] fix: look up tables given as host NumPy arrays

A host array cannot be indexed by the traced index of the vmapped lookup.
---
 jax_cosmo/scipy/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 0d4e26a..923709d 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -24,6 +24,9 @@ def interp(x, xp, fp):
 
     x, xp, fp need to be 1d arrays
     """
+    # Host arrays cannot be indexed by traced values
+    xp, fp = np.asarray(xp), np.asarray(fp)
+
     # First we find the nearest neighbour
     ind = np.argmin((x - xp) ** 2)
 
-- 
2.43.0


From 5ef2946c5ce54db4a941f5ea210aa7609a85b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 18/24] fix: accept signal and noise spectra given as host
 NumPy arrays

Two host arrays add up to a host array, which cannot be indexed by the traced
block index.
---
 jax_cosmo/angular_cl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/angular_cl.py b/jax_cosmo/angular_cl.py
index 9e36b04..41e442f 100644
--- a/jax_cosmo/angular_cl.py
+++ b/jax_cosmo/angular_cl.py
@@ -135,7 +135,8 @@ def gaussian_cl_covariance(ell, probes, cl_signal, cl_noise, f_sky=0.25, sparse=
     one = 1.0 if sparse else np.eye(n_ell)
 
     # Adding noise to auto-spectra
-    cl_obs = cl_signal + cl_noise
+    # (host arrays cannot be indexed by traced values)
+    cl_obs = np.asarray(cl_signal) + cl_noise
     n_cls = cl_obs.shape[0]
 
     # Normalization of covariance
-- 
2.43.0


From 212086dffb7c5d3c292f24f85d4c3d16ddc92950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 19/24] fix: likelihood of host NumPy data with a traced
 covariance

ndarray.dot converts its traced argument to a host array, which fails.
---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index d8fd02f..34ae1ff 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -49,7 +49,7 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             y = sp.linalg.cho_solve(sp.linalg.cho_factor(C, lower=True), r)
         else:
             raise NotImplementedError
-        rT_Cinv_r = r.dot(y)
+        rT_Cinv_r = np.dot(r, y)
 
     if not include_logdet:
         return -0.5 * rT_Cinv_r
-- 
2.43.0


From 8c740159d0a090ba1d22afc76e52fd6a1efa4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:29 +0000
Subject: [PATCH 20/24] fix: keep no tables of an inner transformation in the
 cosmology

The workspace of a cosmology outlives a transformation that closes over it;
the tables stored there by a jitted function (or the body of a scan) made every
later use fail with an UnexpectedTracerError.
---
 jax_cosmo/background.py | 97 ++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 31 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 6865f7a..a0d6945 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -1,6 +1,9 @@
 # This module implements various functions for the background COSMOLOGY
 import jax.numpy as np
+from jax import ensure_compile_time_eval
 from jax import lax
+from jax.core import Tracer
+from jax.tree_util import tree_leaves
 
 import jax_cosmo.constants as const
 from jax_cosmo.scipy.interpolate import interp
@@ -22,6 +25,33 @@ __all__ = [
 ]
 
 
+def _tabulate(cosmo, tables, key, compute):
+    """Returns the table stored under this key, computing it when missing.
+
+    The tables live as long as the cosmology, so that none is stored that
+    belongs to a transformation which the cosmology may outlive.
+    """
+    if key in tables.keys():
+        return tables[key]
+
+    params = [p for p in tree_leaves(cosmo) if isinstance(p, Tracer)]
+    if not params:
+        # The cosmology is known here and now, and so is the table
+        with ensure_compile_time_eval():
+            tables[key] = compute()
+        return tables[key]
+
+    cache = compute()
+    traces = [p._trace for p in params]
+    if all(
+        any(v._trace is t for t in traces)
+        for v in cache.values()
+        if isinstance(v, Tracer)
+    ):
+        tables[key] = cache
+    return cache
+
+
 def w(cosmo, a):
     r"""Dark Energy equation of state parameter using the Linder
     parametrisation.
@@ -219,9 +249,17 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed with these table settings
-    tables = cosmo._workspace.setdefault("background.radial_comoving_distance", {})
-    if not (log10_amin, steps) in tables.keys():
+    cache = _distance_table(cosmo, log10_amin, steps)
+
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _distance_table(cosmo, log10_amin=-3, steps=256):
+    """Table of the radial comoving distance over the scale factor"""
+
+    def compute():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,14 +271,11 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         # np.clip(- 3000*np.log(atab), 0, 10000)#odeint(dchioverdlna, 0., np.log(atab), cosmo)
         chitab = chitab[-1] - chitab
 
-        cache = {"a": atab, "chi": chitab}
-        tables[(log10_amin, steps)] = cache
-    else:
-        cache = tables[(log10_amin, steps)]
+        return {"a": atab, "chi": chitab}
 
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    # Check if distances have already been computed with these table settings
+    tables = cosmo._workspace.setdefault("background.radial_comoving_distance", {})
+    return _tabulate(cosmo, tables, (log10_amin, steps), compute)
 
 
 def a_of_chi(cosmo, chi):
@@ -260,9 +295,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Make sure that the default table of distances has been computed
-    radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"][(-3, 256)]
+    cache = _distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
@@ -460,8 +493,15 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
-    # Check if growth has already been computed
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    cache = _growth_table_ODE(cosmo, log10_amin, steps, eps)
+    a = np.atleast_1d(a)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128, eps=1e-4):
+    """Table of the linear growth factor and growth rate over the scale factor"""
+
+    def compute():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -484,12 +524,10 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         # To transform from dD/da to dlnD/dlna: dlnD/dlna = a / D dD/da
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
-        cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
-    else:
-        cache = cosmo._workspace["background.growth_factor"]
-    a = np.atleast_1d(a)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+        return {"a": atab, "g": gtab, "f": ftab}
+
+    # Check if growth has already been computed
+    return _tabulate(cosmo, cosmo._workspace, "background.growth_factor", compute)
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -509,10 +547,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
@@ -535,8 +570,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         Growth factor computed at requested scale factor
 
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
+
+    def compute():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -546,10 +581,10 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
 
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
-        cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
-    else:
-        cache = cosmo._workspace["background.growth_factor"]
+        return {"a": atab, "g": gtab}
+
+    # Check if growth has already been computed, if not, compute it
+    cache = _tabulate(cosmo, cosmo._workspace, "background.growth_factor", compute)
     a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
-- 
2.43.0


From c21258de91884ad6a826dfc7094e314308b7d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 21/24] fix: determinant of sparse matrices with singular
 trailing blocks

---
 jax_cosmo/sparse.py | 41 ++++-------------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..70af6bd 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,31 +313,12 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    The determinant is the product over the diagonal positions of the
+    determinants of the (n, n) matrices of block elements at this position.
 
     Parameters
     ----------
@@ -353,17 +332,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -372,9 +342,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From c49be8625cb7b1003394ed92d8cdce27725c5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 22/24] fix: reject products of sparse matrices of different
 block sizes

---
 jax_cosmo/sparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 70af6bd..ad15514 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -108,7 +108,9 @@ def dot(*args):
             if B.ndim < 1 or B.ndim > 2:
                 raise ValueError(f"B has invalid dimension {B.ndim} (expected 1 or 2).")
             Brows = B.shape[0]
-        if Acols != Brows:
+        if Acols != Brows or (
+            is_sparse(A) and is_sparse(B) and A.shape[2] != B.shape[2]
+        ):
             raise ValueError(
                 f"Shapes of A {A.shape} and B {B.shape} not compatible for dot product."
             )
-- 
2.43.0


From 4c8ef57105e4899f8e3378334b4f3f2fce8e138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 23/24] fix: derivatives of distance and growth at a=1

Clipping at the very value reached at a=1 halves (or, depending on the
rounding, cuts) the derivative there.
---
 jax_cosmo/background.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index a0d6945..0e7c000 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -252,8 +252,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
     cache = _distance_table(cosmo, log10_amin, steps)
 
     a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    # Return the results as an interpolation of the table, clipped only outside
+    # of it: a clip at the value reached at a=1 would halve the derivatives there
+    return np.where(a > 1.0, 0.0, interp(a, cache["a"], cache["chi"]))
 
 
 def _distance_table(cosmo, log10_amin=-3, steps=256):
@@ -495,7 +496,8 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     """
     cache = _growth_table_ODE(cosmo, log10_amin, steps, eps)
     a = np.atleast_1d(a)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    # Clipping at the value reached at a=1 would halve the derivatives there
+    return np.where(a > 1.0, 1.0, np.clip(interp(a, cache["a"], cache["g"]), 0.0))
 
 
 def _growth_table_ODE(cosmo, log10_amin=-3, steps=128, eps=1e-4):
@@ -586,7 +588,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
     # Check if growth has already been computed, if not, compute it
     cache = _tabulate(cosmo, cosmo._workspace, "background.growth_factor", compute)
     a = np.atleast_1d(a)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    # Clipping at the value reached at a=1 would halve the derivatives there
+    return np.where(a > 1.0, 1.0, np.clip(interp(a, cache["a"], cache["g"]), 0.0))
 
 
 def _growth_rate_gamma(cosmo, a):
-- 
2.43.0


From e35da3ae60914eb5db808b7431ddcc2d5a96bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 24/24] fix: derivatives of the Smail distribution for b < 1

The normalisation evaluates n(z) at z=0, where the derivative of (z/z0)**b with
respect to z0 was NaN.
---
 jax_cosmo/redshift.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index fc09459..daef86a 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -77,7 +77,10 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # The power of zero has no finite derivatives for b < 1
+        zero = z == 0
+        x = np.where(zero, 0.0, (np.where(zero, 1.0, z) / z0) ** b)
+        return z**a * np.exp(-x)
 
 
 @register_pytree_node_class
-- 
2.43.0

