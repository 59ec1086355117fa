From c64a7fe9866f4d91fa12c6417a42562bea7f0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 01/99] fix: probit link fourth derivative calls a function
 scipy does not have (erfinc)

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..ad09404 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..a7a5c40 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 09f4307816cc8eb5d0c0c08df823c03a330f6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 02/99] fix: identity link derivative is a static method but
 declares self, so every call fails

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index a7a5c40..5eb0ea2 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From 9ccfa7b3d4ce77296e2dcd882a1af1fd087885d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 03/99] fix: sign of the power link's second inverse derivative

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index ad09404..f44a3fa 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 5eb0ea2..771a300 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 38cc119ffe128d5b44907f63f0914e136f906f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 04/99] fix: signs of the negative binomial link's second and
 fourth derivatives

---
 pystatsm/pyglm/links.py  | 4 ++--
 pystatsm/pyglm2/links.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index f44a3fa..4a91d04 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -401,7 +401,7 @@ class NegativeBinomialLink(Link):
     def d2link(self, mu):
         a = self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
-        return a / b
+        return -a / b
         
     def d3link(self, mu):
         v = self.v
@@ -413,7 +413,7 @@ class NegativeBinomialLink(Link):
         v = self.v
         a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
-        return a / b
+        return -a / b
         
     
     
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 771a300..f68f044 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -488,7 +488,7 @@ class NegativeBinomialLink(Link):
     def d2link(self, mu):
         a = self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
-        return a / b
+        return -a / b
         
     def d3link(self, mu):
         v = self.v
@@ -500,7 +500,7 @@ class NegativeBinomialLink(Link):
         v = self.v
         a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
-        return a / b
+        return -a / b
         
     
     
-- 
2.43.0


From 6140a1675b496600fccf268f67771a311f02f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 05/99] fix: mixed-model family's second link derivative looks
 up link on a method

---
 pystatsm/pylmm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 817da41..fd8e7aa 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -55,7 +55,7 @@ class ExponentialFamily(object):
         return 1.0 / self.dinv_link(self.link(mu))
     
     def d2link(self, mu):
-        eta = self.link.link(mu)
+        eta = self.link(mu)
         res = -self.d2inv_link(eta) / np.power(self.dinv_link(eta), 3)
         return res
     
-- 
2.43.0


From 51870bd2ecde654184a371b353cd834aeb65dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 06/99] fix: mixed-model power link differentiates with respect
 to the exponent instead of its argument

---
 pystatsm/pylmm/links.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/links.py b/pystatsm/pylmm/links.py
index 810c819..bc2051c 100644
--- a/pystatsm/pylmm/links.py
+++ b/pystatsm/pylmm/links.py
@@ -202,16 +202,15 @@ class PowerLink(Link):
         if self.alpha==0:
             dmu = np.exp(eta)
         else:
-            dmu = -(eta**(1/self.alpha) * np.log(eta)) / (self.alpha**2)
+            dmu = eta**(1/self.alpha - 1.0) / self.alpha
         return dmu
     
     def d2inv_link(self, eta):
         alpha=self.alpha
-        lnx = np.log(eta)
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (eta**(1/alpha) * lnx * (lnx+2*alpha)) / alpha**4
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 5b87a35c0f9efc912c01825c9c54c84c2c7e860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 07/99] fix: inverse Gaussian canonical parameter is -1/(2
 mu^2), with second derivative -3/mu^4

---
 pystatsm/pyglm/families.py | 4 ++--
 pystatsm/pylmm/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..1ba0ef7 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index fd8e7aa..d6e5812 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -200,7 +200,7 @@ class InverseGaussian(ExponentialFamily):
 
     
     def canonical_parameter(self, mu):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
     
     def cumulant(self, T):
@@ -219,7 +219,7 @@ class InverseGaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 3.0 / (FOUR_SQRT2 * np.power(-mu, 2.5))
+        res = -3.0 / (np.power(mu, 4))
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From dd4a606e7ed64707842d33cd0bc2e1871d736991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 08/99] fix: negative binomial mean and cumulant do not invert
 its canonical parameter

---
 pystatsm/pyglm/families.py | 4 ++--
 pystatsm/pylmm/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 1ba0ef7..1d556a0 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index d6e5812..8cd10c6 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -362,12 +362,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
     
     def cumulant(self, T, scale=1.0):
-        b = (-1.0 / scale) * np.log(1 - scale * np.exp(T))
+        b = (-1.0 / scale) * np.log(1 - np.exp(T))
         return b
     
     def mean_func(self, T, scale=1.0):
         u = np.exp(T)
-        mu = -1.0 / scale * (u / (1 - u))
+        mu = 1.0 / scale * (u / (1 - u))
         return mu
     
     def var_func(self, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From b60bfcdb98eeaaec3a3400282d65f90b7fe17bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 09/99] fix: second derivative of the Gaussian canonical
 parameter is zero

---
 pystatsm/pyglm/families.py | 2 +-
 pystatsm/pylmm/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 1d556a0..83986d6 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 8cd10c6..2cbf0f0 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -149,7 +149,7 @@ class Gaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From bbf4f67b82f51802b4769292864ff0cc6abb51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 10/99] fix: expected working weights apply the observation
 weights twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..5686a46 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From 8be21caa3ca12d771e7cddf0875f0ec771601f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 11/99] fix: signed deviance residuals ignore the weights they
 are given

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 83986d6..6241d65 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -98,7 +98,7 @@ class ExponentialFamily(object):
     def signed_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 5686a46..44e1839 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -116,7 +116,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         return chi2
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From 551f667f9f4ca2caff269566f07659c3b11fb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 12/99] fix: sign of the inverse Gaussian saturated
 likelihood's second derivative

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 44e1839..dc0ec03 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -408,7 +408,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From a7193eec6e97f83daf9e85b78f12a672df0637c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 13/99] fix: working weight derivatives call methods that do
 not exist

---
 pystatsm/pyglm2/families.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index dc0ec03..3ce6da0 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
@@ -175,7 +175,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -184,7 +183,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -197,7 +195,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -207,7 +204,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From b1ae5ad0b758b130a83a886fa8f60a99be1f7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 14/99] fix: mixed-model Gaussian and inverse Gaussian
 log-likelihoods are on the scale of the other families

---
 pystatsm/pylmm/families.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 2cbf0f0..2f5a673 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -122,11 +122,11 @@ class Gaussian(ExponentialFamily):
         w = self.weights / scale
         
         ll= w * np.power((y - mu), 2) + np.log(scale/self.weights)
-        return ll
+        return ll / 2.0
     
     def _full_loglike(self, y, eta=None, mu=None, T=None, scale=1.0):
         ll = self._loglike(y, eta, mu, T, scale)
-        llf = ll + LN2PI
+        llf = ll + LN2PI / 2.0
         return llf
     
     def canonical_parameter(self, mu):
@@ -165,7 +165,7 @@ class Gaussian(ExponentialFamily):
         y, mu = self.cshape(y, mu)
         w = self.weights
         phi = np.exp(tau)
-        g = -np.sum(w * np.power((y - mu), 2) / phi - 1)
+        g = -np.sum(w * np.power((y - mu), 2) / phi - 1) / 2.0
         return g
     
     def d2tau(self, tau, y, mu):
@@ -190,12 +190,12 @@ class InverseGaussian(ExponentialFamily):
         w = self.weights / scale
         
         ll = w * np.power((y - mu), 2) / (y * mu**2)
-        ll+= np.log((scale * y**2) / self.weights)
-        return ll
+        ll+= np.log((scale * y**3) / self.weights)
+        return ll / 2.0
     
     def _full_loglike(self, y, eta=None, mu=None, T=None, scale=1.0):
         ll = self._loglike(y, eta, mu, T, scale)
-        llf = ll + LN2PI
+        llf = ll + LN2PI / 2.0
         return llf 
 
     
@@ -237,7 +237,7 @@ class InverseGaussian(ExponentialFamily):
         phi = np.exp(tau)
         num = w * np.power((y - mu), 2)
         den = (phi * y * np.power(mu, 2))
-        g = -np.sum(num / den - 1)
+        g = -np.sum(num / den - 1) / 2.0
         return g    
     
     def d2tau(self, tau, y, mu):
-- 
2.43.0


From f7a6595eca8fa5c8ce845ee8b82509eec3d4d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 15/99] fix: mixed-model negative binomial dispersion
 derivatives

---
 pystatsm/pylmm/families.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 2f5a673..361b31a 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -402,7 +402,7 @@ class NegativeBinomial(ExponentialFamily):
         y, mu = self.cshape(y, mu)
         w = self.weights
         phi = np.exp(tau)
-        A = phi * (y - mu) / ((1 + phi) * mu)
+        A = phi * (y - mu) / (1 + phi * mu)
         T0 = sp.special.digamma(y + 1 / phi)
         T1 = np.log(1+phi*mu)
         T2 = sp.special.digamma(1 / phi)
@@ -416,9 +416,9 @@ class NegativeBinomial(ExponentialFamily):
         v = 1/phi
         T0 = v*np.log(1+phi*mu)
         T1 = v*(sp.special.digamma(y+v) - sp.special.digamma(v))
-        T2 = v**2 * (sp.special.polygamma(2, y+v)-sp.special.polygamma(2, v))
-        A = -y*phi*mu+mu+2*phi*mu**2 / ((1+phi*mu)**2)
-        g = np.sum(w / phi * (T0 - A - T1 - T2))
+        T2 = v**2 * (sp.special.polygamma(1, y+v)-sp.special.polygamma(1, v))
+        A = (-y*phi*mu+mu+2*phi*mu**2) / ((1+phi*mu)**2)
+        g = np.sum(w * (T0 - A - T1 - T2))
         return g
 
     
-- 
2.43.0


From 373e3f35726325595df33f7771636de6d4113bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 16/99] fix: mixed-model residuals pass the mean as the
 canonical parameter and drop the scale

---
 pystatsm/pylmm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 361b31a..b85af5b 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -74,7 +74,7 @@ class ExponentialFamily(object):
         if mu is None:
             mu = self._to_mean(eta=eta, T=T)
         y, mu = self.cshape(y, mu)
-        V = self.var_func(mu)
+        V = self.var_func(mu=mu, scale=scale)
         r_p = (y - mu) / np.sqrt(V)
         return r_p
     
@@ -82,7 +82,7 @@ class ExponentialFamily(object):
         if mu is None:
             mu = self._to_mean(eta=eta, T=T)
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu)
+        d = self.deviance(y, mu=mu, scale=scale)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
     
-- 
2.43.0


From ce8e2be750bd2ecd639b9a49424774e2731ea9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 17/99] fix: Pearson residuals ignore the weights they are
 given

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 6241d65..105aaad 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
-- 
2.43.0


From c57420e5aa4c7d05e05feac72b3067fb73886499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 18/99] fix: sinh-arcsinh skewness and excess kurtosis are not
 the central moments

---
 pystatsm/misc/shash1.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..5e7824b 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -33,16 +33,17 @@ def variance(m, s, v, t):
 
 def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
-    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
+    mu_3_Y = s**3 * (E_Z_3 - 3 * E_Z_2 * E_Z + 2 * E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * E_Z_2 * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From 58849da0cdf19cbe02d754bd07bc5fc7d94dc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 19/99] fix: skew-normal likelihood methods pass a parameter
 the density does not take

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..0df9534 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu, tau=None):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu, tau=None):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu, tau=None):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu, tau=None):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu, tau=None):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From 18d137043449252a2e4baf5536c80e93197130a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 20/99] fix: Huber loss ignores the tuning constant given to it

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..838acb9 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
-- 
2.43.0


From 093579fcbcf3bf6f7b2b22eb2578dd814a5281fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 21/99] fix: expected influence integrates the loss instead of
 the influence function

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 838acb9..810e17c 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From 42386e70d6c4f47227f170acd68346f02053a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 22/99] fix: robust linear model ignores its tuning constant

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..1af069e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c=c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From a28515b816843a652855de804d4269ff08a7d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 23/99] fix: robust S-estimator starts from the logarithm of
 the scale where the scale is expected

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 1af069e..684eb93 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -211,7 +211,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From 9dc2a9bee7a62efb8a7293608c370f0af9e521aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 24/99] fix: target rotation value squares the weights its
 gradient uses once

---
 pystatsm/pyfa/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..c505b46 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -337,7 +337,7 @@ class TargetRotation(RotationMethod):
         self.W, self.H = W, H
 
     def Q(self, L):
-        f = np.sum((self.W * (L - self.H))**2) / 2
+        f = np.sum(self.W * (L - self.H)**2) / 2
         return f
 
     def dQ(self, L):
@@ -346,7 +346,7 @@ class TargetRotation(RotationMethod):
 
     def vgQ(self, L):
         Gq = self.W * (L - self.H)
-        fq = np.sum(Gq**2) / 2
+        fq = np.sum(Gq * (L - self.H)) / 2
         return fq, Gq
 
 
-- 
2.43.0


From 8ddaf0e0930156094ed2ec9d48e3a37ec1488b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 25/99] fix: post-multiplication by the elimination matrix
 multiplies by its transpose

---
 pystatsm/utilities/special_mats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 2e7500a..05de8db 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -181,7 +181,7 @@ def _apply_lmat_post1(arr, i):
     return arr[:, i]
 
 def _apply_lmat_post2(arr, L):
-    return sp.sparse.csc_matrix.dot(arr, L)
+    return sp.sparse.csc_matrix.dot(arr, L.T)
 
 
 def _apply_lmat_pre_post1(arr, i):
@@ -368,7 +368,7 @@ class EliminationMatrix:
         return self.L.dot(A)
 
     def apply_post_alt(self, A):
-        return sp.sparse.csc_matrix.dot(A, self.L)
+        return sp.sparse.csc_matrix.dot(A, self.L.T)
 
     def app(self, A, pre=True, post=False):
         if pre:
-- 
2.43.0


From e34114abce7a47f5f46b74e41a994e524b2cbf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 26/99] fix: DuplicationMatrix.apply_pre_post multiplies by the
 transpose on the right

---
 pystatsm/utilities/special_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 05de8db..0c43d71 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -430,7 +430,7 @@ class DuplicationMatrix:
             D2 = D2.T
 
         A = D1.dot(A)
-        A = (D2.dot(A.T)).T
+        A = (D2.T.dot(A.T)).T
         return A
 
 class DpMatrix:
-- 
2.43.0


From 7a064030228f33db833fcdf1870acd3266b7e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 27/99] fix: inv_tril_indices doubles the positions of the
 diagonal

---
 pystatsm/utilities/indexing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..8ffb540 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -88,7 +88,7 @@ def inv_tril_indices(n, k=0, m=None, order='F', indexing=0):
     arr = np.zeros((n, n), dtype=int)
     ij = tril_indices(n, k, m, order)
     arr[ij] = np.arange(indexing, indexing+len(ij[0]))
-    arr = arr + arr.T
+    arr[ij[::-1]] = arr[ij]
     return arr
 
 def triu_indices(n, k=0, m=None, order='F'):
-- 
2.43.0


From 4a7dcfe801858c6f806c01c82910354820535ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 28/99] fix: GLM.hessian differentiates the gradient of the
 data it was given

With scale_estimator='NR' the beta/log-scale block came from
self.gradient(params), i.e. from the model's own X and Y, even when the
caller (bootstrap, estimating equations) passed other data.
---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..ce84c4a 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -155,7 +155,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X, Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From 7091c3a453bcb1725261ab66bdee7881801c69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:48 +0000
Subject: [PATCH 29/99] fix: GLM with a negative binomial family and
 scale_estimator='NR'

The estimated log-scale is the negative binomial dispersion: its gradient
and Hessian entries were those of the dispersion, but the likelihood, the
score and the beta Hessian used dispersion one and a multiplicative scale.
---
 pystatsm/pyglm/glm.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index ce84c4a..775e6bf 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -124,24 +124,30 @@ class GLM:
             tau = np.log(phi)
         return mu, phi, tau
     
+    def _scale_args(self, phi):
+        # the estimated scale of a negative binomial is its dispersion
+        if self.scale_handling == 'NR' and isinstance(self.f, NegativeBinomial):
+            return dict(phi=1.0, dispersion=phi)
+        return dict(phi=phi)
+    
     def loglike(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, _ = self._handle_scale(params, X, Y)
-        ll = self.f.loglike(Y, mu=mu, phi=phi)
+        ll = self.f.loglike(Y, mu=mu, **self._scale_args(phi))
         return ll
     
         
     def full_loglike(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, _ = self._handle_scale(params, X, Y)
-        ll = self.f.full_loglike(Y, mu=mu, phi=phi)
+        ll = self.f.full_loglike(Y, mu=mu, **self._scale_args(phi))
         return ll
     
 
     def gradient(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, tau = self._handle_scale(params, X, Y)
-        w = self.f.gw(Y, mu=mu, phi=phi)
+        w = self.f.gw(Y, mu=mu, **self._scale_args(phi))
         g = np.dot(X.T, w)
         if self.scale_handling == 'NR':
             dt = np.atleast_1d(np.sum(self.f.dtau(tau, Y, mu)))
@@ -151,18 +157,24 @@ class GLM:
     def hessian(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, tau = self._handle_scale(params, X, Y)
-        w = self.f.hw(Y, mu=mu, phi=phi)
+        w = self.f.hw(Y, mu=mu, **self._scale_args(phi))
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params, X, Y)[:-1])
+            if isinstance(self.f, NegativeBinomial):
+                y, mu = self.f.cshape(Y, mu)
+                dbdt = np.dot(X.T, self.f.weights * phi * (y - mu) / 
+                              ((1 + phi * mu)**2 * self.f.dlink(mu)))
+                dbdt = np.atleast_2d(dbdt)
+            else:
+                dbdt = -np.atleast_2d(self.gradient(params, X, Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
     def hess_grad(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, tau = self._handle_scale(params, X, Y)
-        gw, hw = self.f.get_ghw(Y, mu=mu, phi=phi)
+        gw, hw = self.f.get_ghw(Y, mu=mu, **self._scale_args(phi))
         return gw, hw
         
     
@@ -270,9 +282,9 @@ class GLM:
             self.beta = params
         self.phi = phi
         
-        llf = self.f.full_loglike(y, mu=mu, phi=phi)
+        llf = self.f.full_loglike(y, mu=mu, **self._scale_args(phi))
         lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*y.mean(), 
-                                  phi=phi)
+                                  **self._scale_args(phi))
         self.LLA = llf*2.0
         self.LL0 = lln*2.0
         k = len(params)
@@ -285,7 +297,7 @@ class GLM:
         sumstats['LLR'] = 2*(lln - llf)
         sumstats['pearson_chi2'] = self._est_scale(self.Y, 
                                     self.predict(self.params, kind="mean"))*self.dfe
-        sumstats['deviance'] = self.f.deviance(y=self.Y, mu=mu, phi=phi).sum()
+        sumstats['deviance'] = self.f.deviance(y=self.Y, mu=mu, **self._scale_args(phi)).sum()
 
         sumstats['PseudoR2_CS'] = 1-np.exp(1.0/N * (self.LLA - self.LL0))
         rmax = 1-np.exp(1.0/N *(-self.LL0))
-- 
2.43.0


From 3d05ead3f7912d1b96ee5c6809825640fa7b0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 30/99] fix: weight the second-derivative terms of the CLM
 Hessians

CLM._hessian and _hessian_unconstrained weighted the outer-product term by the
observation weights but not the two second-derivative terms, so with
non-unit weights the Hessian was not that of the weighted log-likelihood.
---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From 002b056d1203926fb4ff3f71cc263b324aaab555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 31/99] fix: weight the whole zero-inflation score of
 ZeroInflatedPoisson

The observation weight multiplied only the first of the two terms of the zero
component's score, in _gradient and in _gradient_i.
---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..ffe5702 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From 3d2434dbbc16bc2d0e59a35f61e65c2aa77ee1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 32/99] fix: weight the coefficient/dispersion block of the
 negative binomial GLM Hessian

The cross block of GLM._hessian ignored the observation weights that the
log-likelihood, its gradient and the other blocks use.
---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..ba23762 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1606,7 +1606,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..09d84d9 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -215,7 +215,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From ccc82f058435df158b7fa08efdd1bffe1bed3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 33/99] fix: import ExponentialFamily where ZeroInflatedModel
 uses it

Constructing a ZeroInflatedNBinom raised NameError.
---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index ffe5702..19da517 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From 42f9c7188159796d70e0b6c67347ba56e5e5746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 34/99] fix: scores and Hessian of ZeroInflatedNBinom weight
 nonzero observations as the objective does

The log-likelihood and gradient multiply the negative binomial term by the
weight; the per-observation scores and the Hessians divided the dispersion by
it. The per-observation log-likelihood also left out the normalising constant
the total includes.
---
 pystatsm/pyglm2/zinf.py | 50 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 19da517..38cb551 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -568,7 +568,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ix = y==0
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
         return ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
@@ -729,17 +729,15 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x0 = mu1[i]
         x1 = dmu1[i]
         x2 = k
-        x3 = 1/w[i]
-        x4 = (1/k)
-        x5 = w[i]*x4
+        x5 = (1/k)
         x6 = x5 + y[i]
-        x7 = x0*x2*x3 + 1
+        x7 = x0*x2 + 1
         x8 = 1/x7
         x9 = mu2[i]
-        d0[i] += x1*x2*x3*x6*x8 - x1*y[i]/x0
+        d0[i] += w[i] * (x1*x2*x6*x8 - x1*y[i]/x0)
         d1[i] += dmu2[i]/(1 - x9)
-        d2[i] += w[i]*x4*sp.special.polygamma(0, x6) + x0*x2*x3*x6*x8 - \
-                x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i]
+        d2[i] += w[i] * (x5*sp.special.polygamma(0, x6) + x0*x2*x6*x8 - \
+                x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i])
                                        
         g1 = d0.reshape(-1, 1) * X
         g2 = d1.reshape(-1, 1) * Z
@@ -815,27 +813,25 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x3 = d1mu1[i]
         x4 = x3**2
         x5 = k
-        x6 = 1/w[i]
-        x7 = w[i] / k
+        x7 = 1 / k
         x8 = x7 + y[i]
-        x9 = x0*x5*x6
+        x9 = x0*x5
         x10 = x9 + 1
         x11 = 1/x10
-        x12 = w[i]**2
         x13 = 2 * np.log(k)
-        x14 = x8 * np.exp(x13)/x12
+        x14 = x8 * np.exp(x13)
         x15 = x14 / x10**2
         x16 = x0 * x11
         x17 = mu2[i]
         x18 = 1/(x17 - 1)
-        x19 = x12 * np.exp(-x13)
+        x19 = np.exp(-x13)
         
-        h1[0, i] = x1 * x11 * x5 * x6 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
-        h1[2, i] = x11 * x3 * (x5 * x6 * x8 - x14 * x16 - 1)
+        h1[0, i] = w[i] * (x1 * x11 * x5 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0)
+        h1[2, i] = w[i] * x11 * x3 * (x5 * x8 - x14 * x16 - 1)
         h1[3, i] = x18 * (x18 * d1mu2[i]**2 -  d2mu2[i])
-        h1[5, i] = x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
+        h1[5, i] = w[i] * (x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
-                x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
+                x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8))
                 
         h = h0 + h1        
       
@@ -925,27 +921,25 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x3 = d1mu1[i]
         x4 = x3**2
         x5 = k
-        x6 = 1/w[i]
-        x7 = w[i] / k
+        x7 = 1 / k
         x8 = x7 + y[i]
-        x9 = x0*x5*x6
+        x9 = x0*x5
         x10 = x9 + 1
         x11 = 1/x10
-        x12 = w[i]**2
         x13 = 2 * np.log(k)
-        x14 = x8 * np.exp(x13)/x12
+        x14 = x8 * np.exp(x13)
         x15 = x14 / x10**2
         x16 = x0 * x11
         x17 = mu2[i]
         x18 = 1/(x17 - 1)
-        x19 = x12 * np.exp(-x13)
+        x19 = np.exp(-x13)
         
-        h1[0, i] = x1 * x11 * x5 * x6 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
-        h1[2, i] = x11 * x3 * (x5 * x6 * x8 - x14 * x16 - 1)
+        h1[0, i] = w[i] * (x1 * x11 * x5 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0)
+        h1[2, i] = w[i] * x11 * x3 * (x5 * x8 - x14 * x16 - 1)
         h1[3, i] = x18 * (x18 * d1mu2[i]**2 -  d2mu2[i])
-        h1[5, i] = x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
+        h1[5, i] = w[i] * (x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
-                x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
+                x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8))
                 
         h = h0 + h1        
       
-- 
2.43.0


From 50da4e08aff5e2fa6e1a9627d6e56134cfa1ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 35/99] fix: ElasticNetGLM.dev_grad is the gradient of the
 deviance

It was half of it, while dev_hess is the Hessian of the whole deviance.
---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..135d3b8 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -142,7 +142,7 @@ class ElasticNetGLM(object):
         X = self.X if X is None else X
         y = self.y if y is None else y
         wobs = self.wobs if wobs is None else wobs
-        dL = np.r_[-np.dot(wobs, y-mu), -wdcrossp(X, wobs, y-mu)]
+        dL = -2.0 * np.r_[np.dot(wobs, y-mu), wdcrossp(X, wobs, y-mu)]
         return dL
     
     
-- 
2.43.0


From 0f86c45c9a20b71827920dddabf88d506e2af7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 36/99] fix: LogbLink uses the offset it is given

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From fc81d22ec182ccd809344a2f35834b2bdd2ffb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 37/99] fix: B-spline smooths call bspline_basis with arguments
 it accepts

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..acd5b41 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -168,7 +168,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=penalty, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +236,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    F, S = bspline_penalty(knots, inner_knots, degree=3)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From 7d93e8578f31623854b7d7e82567d659d6b0aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 38/99] fix: np.product was removed from numpy, use np.prod

---
 pystatsm/pylmm/glmm_mcmc.py      | 4 ++--
 pystatsm/pylmm/mlmm.py           | 2 +-
 pystatsm/pynmf/hfuncs.py         | 4 ++--
 pystatsm/pysem/model_mats.py     | 2 +-
 pystatsm/utilities/data_utils.py | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 622e0e3..cd9198a 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -616,12 +616,12 @@ class MixedMCMC(LMM):
         agg_samples = {}
         for name, ix in self.vnames.items():
             x = self.samples[:, burnin:, ix]
-            x = x.reshape(np.product(x.shape[:-1]), x.shape[-1])
+            x = x.reshape(np.prod(x.shape[:-1]), x.shape[-1])
             agg_samples[name] = x
 
         if 'u' in self.secondary_samples.keys():
             u = self.secondary_samples["u"][:, burnin:]
-            u = u.reshape(np.product(u.shape[:-1]), u.shape[-1])
+            u = u.reshape(np.prod(u.shape[:-1]), u.shape[-1])
         agg_samples['u'] = u
         return agg_samples
 
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 925969a..01cab12 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -271,7 +271,7 @@ class MLMM:
         Rinv = self.update_rmat(theta, inverse=True).copy()
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
-        if (M.nnz / np.product(M.shape) < 0.05) and use_sparse:
+        if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
             L = cholesky(M.tocsc()).L().A
         else:
             L = np.linalg.cholesky(M.A)
diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 495f417..25b833d 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -75,7 +75,7 @@ def conv2(A, B, mode='full'):
 
 def reconstruct(W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) + 2 * L
+    t = int(np.prod(H.shape[1:])) + 2 * L
     H = np.pad(H, ((0, 0), (L, L)))
     X_hat = np.zeros((n, t))
     for tau in range(L):
@@ -85,7 +85,7 @@ def reconstruct(W, H):
     
 def seqnmf_objfunc(X, W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) 
+    t = int(np.prod(H.shape[1:])) 
     X_hat = reconstruct(W, H)
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
diff --git a/pystatsm/pysem/model_mats.py b/pystatsm/pysem/model_mats.py
index d48e7b2..23421e9 100644
--- a/pystatsm/pysem/model_mats.py
+++ b/pystatsm/pysem/model_mats.py
@@ -75,7 +75,7 @@ class FlattenedIndicatorIndices(object):
             _size = triangular_number(shape[-1])
         else:
             v = _vec(array)
-            _size = np.product(shape[-2:])
+            _size = np.prod(shape[-2:])
         self._shape = shape
         self._size = _size
         self._symmetric = symmetric
diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..019782a 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From ff9d29e809a3bd238994c9ad3e289a729d8ca23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 39/99] fix: MLMM.hessian passes reml to the gradient it
 differences

---
 pystatsm/pylmm/mlmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 01cab12..d9db966 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -386,7 +386,7 @@ class MLMM:
         return H
 
     def hessian(self, theta, reml=True):
-        H = so_gc_cd(self.gradient, theta, reml=True)
+        H = so_gc_cd(self.gradient, theta, args=(reml,))
         return H
 
     def _compute_effects(self, theta=None):
-- 
2.43.0


From b90714054d2b89bdc0340af41bb27f8e7cad95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 40/99] fix: RobustLM.irwls takes E_psi2 from its loss

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 684eb93..4bac189 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -117,7 +117,7 @@ class RobustLM:
                 s = mad(r)
             else:
                 v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
-                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
+                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.f.E_psi2()))
             u = r /s
             w = np.sqrt(self.f.psi(u) / u)
             b_new = nwls(self.X, self.y, w)
-- 
2.43.0


From 9d3867ad34f48b906dd500a1606546c8b610442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 41/99] fix: import LMM in icc from the module that defines it

---
 pystatsm/misc/icc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/icc.py b/pystatsm/misc/icc.py
index 1e6047d..f764b4b 100644
--- a/pystatsm/misc/icc.py
+++ b/pystatsm/misc/icc.py
@@ -9,7 +9,7 @@ import numpy as np
 import scipy as sp
 import scipy.stats
 import pandas as pd
-from ..pylmm.lmm_mod import LMM
+from ..pylmm.lmm import LMM
 
 
 def icc_from_summary_stats(subject_var, rater_var, residual_var, 
-- 
2.43.0


From 8657beb916d26ea76ec234f65757b4aeab4ad270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 42/99] fix: jax_invech uses the update method jax offers

---
 pystatsm/utilities/jax_linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/jax_linalg.py b/pystatsm/utilities/jax_linalg.py
index ddb700b..85d7201 100644
--- a/pystatsm/utilities/jax_linalg.py
+++ b/pystatsm/utilities/jax_linalg.py
@@ -38,8 +38,8 @@ def jax_invech(v):
     '''
     Inverse half vectorization operator
     '''
-    rows = int(jnp.round(.5 * (-1 + jnp.sqrt(1 + 8 * len(v)))))
+    rows = int(round(.5 * (-1 + (1 + 8 * len(v))**0.5)))
     res = jnp.zeros((rows, rows))
-    res = jax.ops.index_update(res, jnp.triu_indices(rows), v)
+    res = res.at[jnp.triu_indices(rows)].set(v)
     res = res + res.T - jnp.diag(jnp.diag(res))
     return res
\ No newline at end of file
-- 
2.43.0


From cbd12d359a2c03778efffa7b8bfb2ebeab2eb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 43/99] fix: update_sample_stats defaults to the model's data

---
 pystatsm/pysem2/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..9fbb959 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -157,13 +157,13 @@ class FixedValueManager:
         ----------
         sample_stats : ModelData, optional
             Object containing sample statistics, by default None. If None, it uses
-            self.sample_stats.
+            self.model_data.
 
         Returns
         -------
         None
         """
-        sample_stats = self.sample_stats if sample_stats is None else sample_stats
+        sample_stats = self.model_data if sample_stats is None else sample_stats
         param_df = self.get_table()
         lav_order = self.get_lav_order()
         var_list = sorted(list(self.var_names["lox"]), key=lambda x: lav_order[x])
-- 
2.43.0


From 51b6bc0760d2d4eebdd1ca43aa71b10859f10abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 44/99] fix: import numerical_derivs from this package in
 sinharcsinh_dist

---
 pystatsm/misc/sinharcsinh_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/sinharcsinh_dist.py b/pystatsm/misc/sinharcsinh_dist.py
index 2eea5ee..d354dc7 100644
--- a/pystatsm/misc/sinharcsinh_dist.py
+++ b/pystatsm/misc/sinharcsinh_dist.py
@@ -334,7 +334,7 @@ def _variance(m, s, v, t):
 ###############################################################
 import seaborn as sns
 import matplotlib.pyplot as plt
-from pystats.utilities import numerical_derivs
+from pystatsm.utilities import numerical_derivs
 
 mu, sigma, nu, tau = 10.0, 2.5, 3.0, 1.5
 rng = np.random.default_rng(1234)
-- 
2.43.0


From a5c441a86283af04c2526d5f90c56f223813dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 45/99] fix: sparse matrices no longer have .A, use toarray()

---
 pystatsm/pyfa/rotation.py        |  2 +-
 pystatsm/pylmm/glmm.py           |  6 +++---
 pystatsm/pylmm/mlmm.py           | 10 +++++-----
 pystatsm/pylmm/model_matrices.py |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index c505b46..2c04eaf 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -595,7 +595,7 @@ def oblique_constraint_derivs(params, model):
     gamma = model._gamma
     p, q  = L.shape
     Iq = np.eye(q)
-    Kpq = kmat(p, q).A
+    Kpq = kmat(p, q).toarray()
     L2 = L**2
     A = np.eye(p) -  np.ones((p, p)) * gamma / p
     B = np.ones((q, q)) - np.eye(q)
diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 4be34c4..c4132ac 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -171,8 +171,8 @@ class GLMM_AGQ:
         ll_i = np.sum([self._dloglike(z[i], *args) * w[i]
                      for i in range(len(w))], axis=0) * sq2
         ll_i = np.log(ll_i)
-        lnd = np.linalg.slogdet(pirls_dict['D'].A)[1]\
-              -np.linalg.slogdet(pirls_dict['Q'].A)[1]
+        lnd = np.linalg.slogdet(pirls_dict['D'].toarray())[1]\
+              -np.linalg.slogdet(pirls_dict['Q'].toarray())[1]
         ll = -(np.sum(ll_i) + lnd)
         return ll
 
@@ -291,7 +291,7 @@ class GLMM_LAP:
             params = np.r_[params, 1.0]
         u, Xb, RtR, utGinv_u = self.pirls(params)
         lndL = lndet_gmat(params[self.p:], self.dims, self.indices)
-        lndQ = np.linalg.slogdet(RtR.A)[1]
+        lndQ = np.linalg.slogdet(RtR.toarray())[1]
         lnd = lndL + lndQ
         llf = 2.0 * self.f.loglike(self.y, eta=self.Zs.dot(u)+Xb)
         ll = (llf + utGinv_u + lnd)/2.0
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index d9db966..53e6637 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -137,7 +137,7 @@ def inverse_transform_theta(theta, dims, indices):
 
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
@@ -227,8 +227,8 @@ class MLMM:
         self.d2g_dchol = {}
         for key in self.levels:
             p = self.dims[key]['n_vars']
-            self.elim_mats[key] = lmat(p).A
-            self.symm_mats[key] = nmat(p).A
+            self.elim_mats[key] = lmat(p).toarray()
+            self.symm_mats[key] = nmat(p).toarray()
             self.iden_mats[key] = np.eye(p)
             self.d2g_dchol[key] = get_d2_chol(self.dims[key])
         self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta]
@@ -272,9 +272,9 @@ class MLMM:
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
         if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
-            L = cholesky(M.tocsc()).L().A
+            L = cholesky(M.tocsc()).L().toarray()
         else:
-            L = np.linalg.cholesky(M.A)
+            L = np.linalg.cholesky(M.toarray())
         ytPy = np.diag(L)[-1]**2
         logdetG = lndet_gmat(theta, self.dims, self.indices)
         logdetR = np.log(R.data).sum()
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 8a09ba9..6717dbc 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -164,7 +164,7 @@ def inverse_transform_theta(theta, dims, indices):
         
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
-- 
2.43.0


From 22aeb75e76806f088e7f778f6937afd2905115ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 46/99] fix: estimate_simultaneous uses the loss functions its
 estimators have

---
 pystatsm/pyrobust/m_estimators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 810e17c..fa27919 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -223,7 +223,7 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
    
     mu, sd = np.median(x, axis=0), dispersion_est(x)
     r = (x - mu) / sd
-    f_prev = func.rho_func(r).sum()
+    f_prev = func.rho(r).sum()
     
     mu_vec = np.zeros(n_iters)
     sd_vec = np.ones(n_iters)
@@ -235,15 +235,14 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
     
     for i in range(n_iters):
         w_mu = func.weights(r)
-        w_sd =func.scale_weights(r)
         
         mu = np.sum((w_mu * x)) / np.sum(w_mu)
-        sd = np.sqrt((sd**2) / (d * n) * np.sum(w_sd * r**2))
+        sd = np.sqrt((sd**2) / (d * n) * np.sum(func.rho(r)))
         mu_vec[i] = mu
         sd_vec[i] = sd
         r = (x - mu) / sd
         
-        f_new = func.rho_func(r).sum()
+        f_new = func.rho(r).sum()
         fvals[i] = f_new
         if np.abs(f_new - f_prev)<tol:
             break
-- 
2.43.0


From 0dcd4ba3e5a18518fdc75686dcc8b34b1dd4533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 47/99] fix: permutation tests of linear models use the t
 statistics of the fit

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/ols.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ba23762..902edbc 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1379,7 +1379,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        abst = np.abs((self.params / self.params_se)[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..a68fcc8 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,7 +503,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        abst = np.abs((self.params / self.params_se)[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
-- 
2.43.0


From 6efd0ba50fa3066a7613e9f1ba69bd37b4b73652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 48/99] fix: Kronecker covariances take the log determinant
 over n_lv levels

---
 pystatsm/pylmm/_re_mod_orig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/_re_mod_orig.py b/pystatsm/pylmm/_re_mod_orig.py
index 4d68c8a..d2a7d12 100644
--- a/pystatsm/pylmm/_re_mod_orig.py
+++ b/pystatsm/pylmm/_re_mod_orig.py
@@ -255,7 +255,7 @@ class KronAG(BaseProductCovariance):
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
-        out += self.n_levels * np.linalg.slogdet(G0)[1] + self.lda_const
+        out += self.n_lv * np.linalg.slogdet(G0)[1] + self.lda_const
         return out
 
     def dcov_dparams(self, params, i):
@@ -289,7 +289,7 @@ class KronGA(BaseProductCovariance):
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
-        out += self.n_levels * np.linalg.slogdet(G0)[1] + self.lda_const
+        out += self.n_lv * np.linalg.slogdet(G0)[1] + self.lda_const
         return out
 
     def dcov_dparams(self, params, i):
-- 
2.43.0


From dc9a3cc8a3412b8c5d73d743f7b0eb55f5bf399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 49/99] fix: ModelSpecification writes group parameters through
 its indexer

---
 pystatsm/pysem2/model_specification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_specification.py b/pystatsm/pysem2/model_specification.py
index e554830..20cc963 100644
--- a/pystatsm/pysem2/model_specification.py
+++ b/pystatsm/pysem2/model_specification.py
@@ -128,7 +128,7 @@ class ModelSpecification(ModelBase):
         if self._check_complex:
             if np.iscomplexobj(group_free):
                 par = par.astype(complex)
-        par[self.indexers[i].flat_indices] = group_free
+        par[self.indexer.flat_indices] = group_free
         return par
 
     def transform_theta_to_free(self, theta):
-- 
2.43.0


From ab23d1f0e05b7f4bb58fce5c8e4b66d15527127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 50/99] fix: fitting routines leave the option dictionaries
 they are given alone

---
 pystatsm/pyglm/nb2.py                 | 3 ++-
 pystatsm/pylmm/lmm.py                 | 1 +
 pystatsm/pylmm/mlmm.py                | 1 +
 pystatsm/pysem/multigroup.py          | 2 +-
 pystatsm/pysem/sem2.py                | 2 +-
 pystatsm/pysem/sem_model.py           | 2 +-
 pystatsm/pysem2/sem.py                | 2 +-
 pystatsm/utilities/optimizer_utils.py | 4 +++-
 8 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..ceff76b 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -104,7 +104,7 @@ class NegativeBinomial(object):
     def fit(self, opt_kws={}):
         default_opt_kws = dict(options=dict(verbose=0), 
                                         method='trust-constr')
-                                        
+        opt_kws = dict(opt_kws)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
                 opt_kws[key] = val
@@ -170,6 +170,7 @@ class NegativeBinomial(object):
     
     def bootstrap(self, n_boot=2000, opt_kws={}):
         default_opt_kws = dict(gtol=1e-4, xtol=1e-4, verbose=0)
+        opt_kws = dict(opt_kws)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
                 opt_kws[key] = val
diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..2fbcfcf 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -541,6 +541,7 @@ class LMM(object):
                   opt_kws={}, optimize_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
+        opt_kws = dict(opt_kws)
         for key, value in default_opt_kws.items():
                 if key not in opt_kws.keys():
                     opt_kws[key] = value
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 53e6637..14ab8f9 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -413,6 +413,7 @@ class MLMM:
                   opt_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
+        opt_kws = dict(opt_kws)
         for key, value in default_opt_kws.items():
                 if key not in opt_kws.keys():
                     opt_kws[key] = value
diff --git a/pystatsm/pysem/multigroup.py b/pystatsm/pysem/multigroup.py
index 6dc49ad..9d5fd14 100644
--- a/pystatsm/pysem/multigroup.py
+++ b/pystatsm/pysem/multigroup.py
@@ -669,7 +669,7 @@ class SEM:
         if np.linalg.norm(res.grad)>1e16:
             if minimize_options is None:
                 minimize_options = {}
-            minimize_options["initial_tr_radius"]=0.01
+            minimize_options = dict(minimize_options, initial_tr_radius=0.01)
             res = self._fit(minimize_kws=minimize_kws, minimize_options=minimize_options, use_hess=use_hess)
         self.opt_res = res
         self.theta = res.x
diff --git a/pystatsm/pysem/sem2.py b/pystatsm/pysem/sem2.py
index 447cabc..5086eb7 100644
--- a/pystatsm/pysem/sem2.py
+++ b/pystatsm/pysem/sem2.py
@@ -338,7 +338,7 @@ class SEM(ModelSpecification):
         if np.linalg.norm(res.get("grad", res.get("jac", self.gradient(res.x)))) > 1e16:
             if minimize_options is None:
                 minimize_options = {}
-            minimize_options["initial_tr_radius"] = 0.01
+            minimize_options = dict(minimize_options, initial_tr_radius=0.01)
             res = self._fit(minimize_kws=minimize_kws,
                             minimize_options=minimize_options, use_hess=use_hess)
         self.opt_res = res
diff --git a/pystatsm/pysem/sem_model.py b/pystatsm/pysem/sem_model.py
index 7172567..d7e9273 100644
--- a/pystatsm/pysem/sem_model.py
+++ b/pystatsm/pysem/sem_model.py
@@ -304,7 +304,7 @@ class SEM:
         if np.linalg.norm(res.grad)>1e16:
             if minimize_options is None:
                 minimize_options = {}
-            minimize_options["initial_tr_radius"]=0.01
+            minimize_options = dict(minimize_options, initial_tr_radius=0.01)
             res = self._fit(minimize_kws=minimize_kws, minimize_options=minimize_options, use_hess=use_hess)
         self.opt_res = res
         self.theta = res.x
diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..ebf95e8 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -438,7 +438,7 @@ class SEM(ModelSpecification):
         if np.linalg.norm(res.get("grad", res.get("jac", self.gradient(res.x)))) > 1e16:
             if minimize_options is None:
                 minimize_options = {}
-            minimize_options["initial_tr_radius"] = 0.01
+            minimize_options = dict(minimize_options, initial_tr_radius=0.01)
             res = self._fit(minimize_kws=minimize_kws,
                             minimize_options=minimize_options, use_hess=use_hess)
         self.opt_res = res
diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index dcc745e..afc08e7 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -23,14 +23,16 @@ default_opts = {'L-BFGS-B':LBFGSB_options,
                 'trust-ncg':TrustNewton_options}
 
 def process_optimizer_kwargs(optimizer_kwargs, default_method='trust-constr'):
+    optimizer_kwargs = dict(optimizer_kwargs)
     keys = optimizer_kwargs.keys()
 
     if 'method' not in keys:
         optimizer_kwargs['method'] = default_method
 
     if 'options' not in keys:
-        optimizer_kwargs['options'] = default_opts[optimizer_kwargs['method']]
+        optimizer_kwargs['options'] = dict(default_opts[optimizer_kwargs['method']])
     else:
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         options_keys = optimizer_kwargs['options'].keys()
         for dfkey, dfval in default_opts[optimizer_kwargs['method']].items():
             if dfkey not in options_keys:
-- 
2.43.0


From 5fda3060c407ce9005c09399bfa67a9f7b03d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 51/99] fix: ModelData.from_samplestats leaves the dictionaries
 it is given alone

---
 pystatsm/pysem/model_data.py  | 1 +
 pystatsm/pysem2/model_data.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pysem/model_data.py b/pystatsm/pysem/model_data.py
index 026c436..593fcc0 100644
--- a/pystatsm/pysem/model_data.py
+++ b/pystatsm/pysem/model_data.py
@@ -105,6 +105,7 @@ class ModelData(object):
         n_groups = 1
         if isinstance(sample_cov, dict) and isinstance(sample_mean, dict) and (n_obs is None or isinstance(n_obs, dict)):
             n_groups = len(sample_cov)
+            sample_cov, sample_mean = dict(sample_cov), dict(sample_mean)
         elif isinstance(sample_cov, (pd.DataFrame, np.ndarray)) and isinstance(sample_mean, (pd.DataFrame, np.ndarray, pd.Series)) and (n_obs is None or isinstance(n_obs, int)):
             sample_cov = {0: sample_cov}
             sample_mean = {0: sample_mean}
diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..1f033e3 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -108,6 +108,7 @@ class ModelData(object):
         if isinstance(sample_cov, dict) and isinstance(sample_mean, dict) and (
                 n_obs is None or isinstance(n_obs, dict)):
             n_groups = len(sample_cov)
+            sample_cov, sample_mean = dict(sample_cov), dict(sample_mean)
         elif isinstance(sample_cov, (pd.DataFrame, np.ndarray)) and isinstance(sample_mean, (
         pd.DataFrame, np.ndarray, pd.Series)) and (n_obs is None or isinstance(n_obs, int)):
             sample_cov = {0: sample_cov}
-- 
2.43.0


From f7c0669f29fc709d632e1f84147dae4a2995e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 52/99] fix: transforming covariance parameters leaves the
 vector it is given alone

---
 pystatsm/pylmm/lmm.py            | 2 ++
 pystatsm/pylmm/mlmm.py           | 2 ++
 pystatsm/pylmm/model_matrices.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 2fbcfcf..575c5ad 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -88,6 +88,7 @@ class LMM(object):
 
 
     def transform_theta(self, theta):
+        theta = theta.copy()
         for i in range(self.levels):
             G = invech(theta[self.t_inds[i]])
             L = np.linalg.cholesky(G)
@@ -96,6 +97,7 @@ class LMM(object):
         return theta
 
     def inverse_transform_theta(self, theta):
+        theta = theta.copy()
         for i in range(self.levels):
             L = invech_chol(theta[self.t_inds[i]])
             G = L.dot(L.T)
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 14ab8f9..293a4be 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -119,6 +119,7 @@ def invech_chol(lvec):
     return L
 
 def transform_theta(theta, dims, indices):
+    theta = theta.copy()
     for key in dims.keys():
         G = invech(theta[indices['theta'][key]])
         L = np.linalg.cholesky(G)
@@ -128,6 +129,7 @@ def transform_theta(theta, dims, indices):
 
 
 def inverse_transform_theta(theta, dims, indices):
+    theta = theta.copy()
     for key in dims.keys():
         L = invech_chol(theta[indices['theta'][key]])
         G = L.dot(L.T)
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 6717dbc..d135921 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -146,6 +146,7 @@ def lndet_gmat_chol(theta, dims, indices):
     return lnd
 
 def transform_theta(theta, dims, indices):
+    theta = theta.copy()
     for key in dims.keys():
         G = invech(theta[indices['theta'][key]])
         L = np.linalg.cholesky(G)
@@ -155,6 +156,7 @@ def transform_theta(theta, dims, indices):
         
     
 def inverse_transform_theta(theta, dims, indices):
+    theta = theta.copy()
     for key in dims.keys():
         L = invech_chol(theta[indices['theta'][key]])
         G = L.dot(L.T)
-- 
2.43.0


From 9381b361715baa1c89eb8cf0d4eeb8c3ad1d3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 53/99] fix: LinearModelSim fills in the number of levels in
 its own dictionary

---
 pystatsm/pyglm/glm_sim.py    | 3 +--
 pystatsm/pyglm2/model_sim.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index b6259dc..26ff126 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -31,11 +31,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d95c3a0..94d26d4 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -33,11 +33,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
-- 
2.43.0


From f3302181f4d1340e1ec60a9468ece4f00e5f6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 54/99] fix: simulated mixed models keep rescaled covariances
 in their own dictionary

---
 pystatsm/pylmm/sim_lmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 4280936..8227e74 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -124,7 +124,8 @@ class MixedModelSim:
         df[list(cont_vars)] = xvals
         X, Z, y, dims, _ = construct_model_matrices(formula, data=df)
         self.rng, self.ranef_dist, self.resid_dist = rng, ranef_dist, resid_dist
-        self.formula, self.model_dict, self.ginfo = formula, model_dict, ginfo
+        self.formula, self.ginfo = formula, ginfo
+        self.model_dict = dict(model_dict, gcov=dict(model_dict['gcov']))
         self.df, self.re_groupings, self.cont_vars = df, re_groupings, cont_vars
         self.X, self.Z, self.dims = X, Z, dims
         self.eta_fe, self.n_obs = X.dot(model_dict['beta']),  n_obs
-- 
2.43.0


From 7cf4a1b30b116f6d416084a33ccb04daf3f8e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 55/99] fix: center_factors returns both factors and leaves its
 arguments alone

---
 pystatsm/pynmf/hfuncs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 25b833d..e0f4da6 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -112,6 +112,7 @@ def _initparams(X, k, L):
 def center_factors(W, H):
     n, k, L = W.shape
     center = np.maximum(np.floor(L / 2), 1)
+    H = H.copy()
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
         tmp = np.sum(np.squeeze(W[:, i]), axis=0)
@@ -121,7 +122,7 @@ def center_factors(W, H):
                               axis=1)
         H[i] = np.roll(H[i], int(cmass-center), axis=1)
     W = W_pad[:, :, L:-L]
-    return W
+    return W, H
 
 
 
-- 
2.43.0


From a474ed92772a7891435586a8601ad44cf28e1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 56/99] fix: overflow_adjust clips a copy

---
 pystatsm/pyglmnet/glmen2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 135d3b8..53bf37a 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -20,6 +20,7 @@ from ..pyglm.links import LogitLink
 from ..utilities.linalg_operations import wdcrossp, wcrossp
 
 def overflow_adjust(x, lower=-36, upper=36):
+    x = x.copy()
     x[x<lower] = lower
     x[x>upper] = upper
     return x
-- 
2.43.0


From 1a4e6da6e32d90654814344a9c0604ce3be5b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 57/99] fix: multigroup models number the groups in a copy of
 the data

---
 pystatsm/pysem/multigroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem/multigroup.py b/pystatsm/pysem/multigroup.py
index 9d5fd14..7dac074 100644
--- a/pystatsm/pysem/multigroup.py
+++ b/pystatsm/pysem/multigroup.py
@@ -93,6 +93,7 @@ class ModelSpecification(object):
         """
         group_ids = np.unique(data[group_col])
         n_groups = len(group_ids)
+        data = data.copy()
         data[group_col] = data[group_col].replace(dict(zip(group_ids, np.arange(n_groups)))) 
         self.n_groups = n_groups
         self.create_group_tables(formula, data, group_col)
@@ -243,7 +244,7 @@ class SEM:
         group_kws = dict(shared=[True]*6) if group_kws is None else group_kws
         if group_col is None:
             group_col = "group"
-            data["group"] = 0
+            data = data.assign(group=0)
         self.mspec = ModelSpecification(formula, data, group_col=group_col)
         self.mspec.add_matrix_equalities(**group_kws)
         self.indexer = self.mspec.indexers[0]
-- 
2.43.0


From cc827f116da98d539c0a724f261eb2caf17de718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 58/99] fix: elastic net solvers leave starting values and
 active sets alone

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..6a2a9d6 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -362,7 +362,7 @@ def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000,
     index = np.arange(p)
     la, dla = alpha * lambda_, (1 - alpha) * lambda_
     Xsq = X**2
-    b, b0, active, fvals = _binom_glmnet(b, X, Xsq, y, la, dla, active, index, n, 
+    b, b0, active, fvals = _binom_glmnet(b, X, Xsq, y, la, dla, active.copy(), index, n, 
                                          n_iters, btol, dtol, pmin, nr_ent, b0,
                                          float(intercept))
     return b, b0, active, fvals, len(fvals)
diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..af12c46 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -104,7 +104,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
     if intercept:
         y = y - y.mean()
     Xsq = (X**2).sum(axis=0)
-    beta, fvals, active, nits = eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters, dtol, btol)
+    beta, fvals, active, nits = eln_cd(X, y, Xsq, alpha, lambda_, b.copy(), active.copy(), n_iters, dtol, btol)
     fvals = fvals[:(nits+2)]
     return beta, fvals, active, nits
 
-- 
2.43.0


From ebc8b988ce0cbc0beed6978228f1911d873eddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 59/99] fix: latent variable and covariance samplers leave the
 state they start from alone

---
 pystatsm/pylmm/glmm_mcmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index cd9198a..c4ae9fd 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -295,7 +295,7 @@ class MixedMCMC(LMM):
 
     def mh_lvar_binomial(self, pred, s, z, x_step, u_accept, propC):
         z_prop = x_step * propC + z
-
+        z = z.copy()
         mndenom1, mndenom2 = np.exp(z)+1, np.exp(z_prop)+1
         densityl1 = ((self.y*z) - np.log(mndenom1))*self.weights
         densityl2 = ((self.y*z_prop) - np.log(mndenom2))*self.weights
@@ -308,7 +308,7 @@ class MixedMCMC(LMM):
 
     def mh_lvar_poisson(self, pred, s, z, x_step, u_accept, propC):
         z_prop = x_step * propC + z
-
+        z = z.copy()
         densityl1 = poisson_logp(self.y, np.exp(z))
         densityl2 = poisson_logp(self.y, np.exp(z_prop))
         densityl1 += sp.stats.norm(pred, s).logpdf(z)
@@ -338,6 +338,7 @@ class MixedMCMC(LMM):
         U_i = u_i.reshape(-1, self.wsinfo[i]['k'], order='C')
         Sg_i =  U_i.T.dot(U_i)
         Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'])
+        theta = theta.copy()
         theta[self.t_inds[i]] = vech(Gs)
         return theta
 
@@ -358,6 +359,7 @@ class MixedMCMC(LMM):
 
 
     def slice_sample_lvar(self, rexpon, v, z, theta, pred):
+        v, z = v.copy(), z.copy()
         v[self.ix1] = z[self.ix1] - log1p(np.exp(z[self.ix1]))
         v[self.ix1]-= rexpon[self.ix1]
         v[self.ix1] = v[self.ix1] - log1p(-np.exp(v[self.ix1]))
-- 
2.43.0


From 7e95420670ece9132986b087f432c97abd324620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 60/99] fix: exact_rmvnorm draws from its own generator instead
 of reseeding the process-wide one

---
 pystatsm/utilities/random.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..4fb3ed8 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -63,15 +63,14 @@ def onion_corr(d, eta=1, beta=None):
     return S
 
 
-@numba.jit(nopython=True)
-def exact_rmvnorm(S, n=1000, mu=None, seed=None):
-    if seed is not None:
-        np.random.seed(seed)
+def exact_rmvnorm(S, n=1000, mu=None, seed=None, rng=None):
+    if rng is None:
+        rng = np.random.RandomState(seed)
     p = S.shape[0]
     U, d, _ = np.linalg.svd(S)
     d = d.reshape(1, -1)
     L = U * d**0.5
-    X = _csd(np.random.normal(0.0, 1.0, size=(n, p)))
+    X = _csd(rng.normal(0.0, 1.0, size=(n, p)))
     R = _corr(X)
     L = L.dot(np.linalg.inv(np.linalg.cholesky(R)))
     X = X.dot(L.T)
-- 
2.43.0


From 7b15007d8a5f0af3f3b69ca8a72ccc65dc8dca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 61/99] fix: MixedMCMC draws everything from the generator it
 is given

---
 pystatsm/pylmm/glmm_mcmc.py  | 18 ++++++++--------
 pystatsm/utilities/random.py | 40 +++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index c4ae9fd..b1257a4 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -329,7 +329,7 @@ class MixedMCMC(LMM):
             sd = j*s
             lb = j*tau[i-1]
             ub = j*tau[i]
-            v[ix] = trnorm(mu, sd, lb, ub)
+            v[ix] = trnorm(mu, sd, lb, ub, rng=self.rng)
         return v
 
 
@@ -337,7 +337,8 @@ class MixedMCMC(LMM):
         u_i = u[self.u_indices[i]]
         U_i = u_i.reshape(-1, self.wsinfo[i]['k'], order='C')
         Sg_i =  U_i.T.dot(U_i)
-        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'])
+        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'],
+                          rng=self.rng)
         theta = theta.copy()
         theta[self.t_inds[i]] = vech(Gs)
         return theta
@@ -346,7 +347,8 @@ class MixedMCMC(LMM):
         resid = y - yhat
         sse = resid.T.dot(resid)
         nu = self.wsinfo['r']['nu']
-        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2)
+        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2,
+                        rng=self.rng)
         theta[-1] = ss
         return theta
 
@@ -369,9 +371,9 @@ class MixedMCMC(LMM):
         v[self.ix0] = log1p(-np.exp(v[self.ix0])) - v[self.ix0]
         s = np.sqrt(theta[-1])
         z[self.ix1] = trnorm(mu=pred[self.ix1], sd=s*self.jv1,
-                             lb=v[self.ix1], ub=200*self.jv1)
+                             lb=v[self.ix1], ub=200*self.jv1, rng=self.rng)
         z[self.ix0] = trnorm(mu=pred[self.ix0], sd=s*self.jv0,
-                             lb=-200*self.jv0, ub=v[self.ix0])
+                             lb=-200*self.jv0, ub=v[self.ix0], rng=self.rng)
         return z
 
 
@@ -389,7 +391,7 @@ class MixedMCMC(LMM):
         m = pred[self.y_ix[i+1]]
         ll += np.sum(np.log(1.0 - norm_cdf((t_prop[i]-m)/s)))
         ll -= np.sum(np.log(1.0 - norm_cdf((t[i]-m)/s)))
-        if ll>np.log(np.random.uniform(0, 1)):
+        if ll>np.log(self.rng.uniform(0, 1)):
             t_accept = True
             t = t_prop
         else:
@@ -456,7 +458,7 @@ class MixedMCMC(LMM):
         acceptances = np.zeros((n_samples))
         location = self.location.copy()
         pred =  self.W.dot(location)
-        z = sp.stats.norm(self.y, self.y.var()).rvs()
+        z = sp.stats.norm(self.y, self.y.var()).rvs(random_state=rng)
         theta = self.t_init.copy()
         progress_bar = tqdm.tqdm(range(n_samples), smoothing=0.01)
         wtrace, waccept = 1.0, 1.0
@@ -496,7 +498,7 @@ class MixedMCMC(LMM):
         n_smp = n_samples
         samples = np.zeros((n_smp, n_pr))
         location, pred = self.location.copy(), self.W.dot(self.location)
-        theta, z = self.t_init.copy(), sp.stats.norm(0, 1).rvs(n_ob)
+        theta, z = self.t_init.copy(), sp.stats.norm(0, 1).rvs(n_ob, random_state=rng)
         v = np.zeros_like(z).astype(float)
         progress_bar = tqdm.tqdm(range(n_smp), smoothing=0.01)
         progress_bar.set_description(f"Chain {chain+1}")
diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 4fb3ed8..835de34 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -92,25 +92,27 @@ def wishart(df, V):
     return W
 
 @numba.jit(nopython=True)
-def invwishart(df, V):
+def invwishart(df, V, rng):
     n = V.shape[0]
     T = np.zeros((n, n))
     for i in range(n):
-        T[i, i] = np.sqrt(np.random.chisquare(df-(i+1)+1))
+        T[i, i] = np.sqrt(rng.chisquare(df-(i+1)+1))
         for j in range(i):
-            T[i, j] = np.random.normal(0.0, 1.0)
+            T[i, j] = rng.normal(0.0, 1.0)
     L = np.linalg.cholesky(V)
     A = L.dot(T)
     W = A.dot(A.T)
     IW = np.linalg.inv(W)
     return IW
 
-def r_invwishart(df, V):
+def r_invwishart(df, V, rng=None):
+    rng = np.random.default_rng() if rng is None else rng
     Vinv = np.linalg.inv(V)
-    return invwishart(df, Vinv)
+    return invwishart(df, Vinv, rng)
 
-def r_invgamma(df, scale):
-    return 1.0/np.random.gamma(df, scale=1/scale)
+def r_invgamma(df, scale, rng=None):
+    rng = np.random.default_rng() if rng is None else rng
+    return 1.0/rng.gamma(df, scale=1/scale)
 
 
 
@@ -123,11 +125,11 @@ def norm_cdf(x):
 
 #Adapted from MCMCglmm
 @numba.jit(nopython=True)
-def scalar_truncnorm(mu, sd, lb, ub):
+def scalar_truncnorm(mu, sd, lb, ub, rng):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = rng.normal(mu, sd)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
@@ -135,15 +137,15 @@ def scalar_truncnorm(mu, sd, lb, ub):
                 tr = (mu - ub) / sd
             if tr < 0:
                 while sample==1:
-                    z = np.random.normal(0.0, 1.0)
+                    z = rng.normal(0.0, 1.0)
                     if z>tr:
                         sample = 0
             else:
                 alpha = (tr + np.sqrt((tr * tr) + 4.0)) / 2.0
                 while sample==1:
-                    z = np.random.exponential(scale=1/alpha) + tr
+                    z = rng.exponential(scale=1/alpha) + tr
                     pz = -((alpha - z) * (alpha - z) / 2.0)
-                    u = -np.random.exponential(scale=1.0)
+                    u = -rng.exponential(scale=1.0)
                     if (u<=pz):
                         sample = 0
     else:
@@ -154,12 +156,12 @@ def scalar_truncnorm(mu, sd, lb, ub):
 
         if tr>0.5:
             while sample==1:
-                z = np.random.normal(0.0, 1.0)
+                z = rng.normal(0.0, 1.0)
                 if (z>sl) and (z<su):
                     sample = 0
         else:
             while sample==1:
-                z = np.random.uniform(sl, su)
+                z = rng.uniform(sl, su)
                 if (sl<=0.0) and (0.0<=su):
                     pz = -z*z / 2.0
                 else:
@@ -167,7 +169,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
                         pz = (su * su - z * z) / 2.0
                     else:
                         pz = (sl * sl - z * z) / 2.0
-                u = -np.random.exponential(scale=1.0)
+                u = -rng.exponential(scale=1.0)
                 if u<pz:
                     sample = 0
     if lb<-1e16:
@@ -176,13 +178,17 @@ def scalar_truncnorm(mu, sd, lb, ub):
         return z*sd+mu
 
 @numba.jit(nopython=True)
-def trnorm(mu, sd, lb, ub):
+def _trnorm(mu, sd, lb, ub, rng):
     n = len(mu)
     z = np.zeros((n, ), dtype=numba.float32)
     for i in range(n):
-        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
+        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i], rng)
     return z
 
+def trnorm(mu, sd, lb, ub, rng=None):
+    rng = np.random.default_rng() if rng is None else rng
+    return _trnorm(mu, sd, lb, ub, rng)
+
 def students_t(loc, scale, nu=1, size=None, rng=None):
      rng = np.random.default_rng() if rng is None else rng
      x = loc + rng.standard_t(df=nu, size=size) * scale
-- 
2.43.0


From 778d4710c419b8d9e3f477f6f23a66c3416980e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 62/99] fix: FactorModelSim and SimCCA hand their generator to
 exact_rmvnorm

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/pyscca/cca_sim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..1878d8c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -81,7 +81,7 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            Z = exact_rmvnorm(n=n_obs, S=self.C, rng=self.rng)
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index b5a7e1a..763478a 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -73,7 +73,7 @@ class SimCCA(object):
     
     def simulate_data(self, n_obs=1000, exact=False):
         if exact:
-            data = exact_rmvnorm(self.S, n=n_obs, seed=self.seed)
+            data = exact_rmvnorm(self.S, n=n_obs, rng=self.rng)
         else:
             data = self.rng.multivariate_normal(mean=np.zeros(self.p+self.q),
                                                 cov=self.S, size=n_obs)
-- 
2.43.0


From d4006f35be4fb9a3cbea910a3b7bebe412fc99e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 63/99] fix: simulated sparse and robust regressions draw
 everything from the generator or seed given

---
 pystatsm/pyglmnet/sparse_model_sim.py | 2 +-
 pystatsm/pyrobust/robust_model_sim.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/sparse_model_sim.py b/pystatsm/pyglmnet/sparse_model_sim.py
index 9bbb7c2..3887614 100644
--- a/pystatsm/pyglmnet/sparse_model_sim.py
+++ b/pystatsm/pyglmnet/sparse_model_sim.py
@@ -21,7 +21,7 @@ class SparseRegressionModel:
             rho = 0.9 if rho is None else rho
             x_cov = 0.99**sp.linalg.toeplitz(np.arange(n_var))
         
-        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), seed=123)[:n_obs]
+        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), rng=rng)[:n_obs]
         if xw is not None:
             X = X * xw
             X = (X - X.mean(axis=0)) / X.std(axis=0)
diff --git a/pystatsm/pyrobust/robust_model_sim.py b/pystatsm/pyrobust/robust_model_sim.py
index 385d4f8..c82c93c 100644
--- a/pystatsm/pyrobust/robust_model_sim.py
+++ b/pystatsm/pyrobust/robust_model_sim.py
@@ -17,7 +17,7 @@ class RobustRegressionModel:
                  beta=None, beta_vals=None,  rsq=None, seed=None, 
                  rng=None, resid_dist=None):
         
-        rng = np.random.default_rng() if rng is None else rng
+        rng = np.random.default_rng(seed) if rng is None else rng
         if resid_dist is None:
             resid_dist = lambda loc, scale, size: students_t(loc, scale, nu=2, 
                                                              size=size, rng=rng)
@@ -29,7 +29,7 @@ class RobustRegressionModel:
             rho = 0.0 if rho is None else rho
             x_cov = rho**sp.linalg.toeplitz(np.arange(n_var))
         
-        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), seed=seed)[:n_obs]        
+        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), rng=rng)[:n_obs]        
         if beta is None:
             if beta_vals is None:
                 beta_vals = np.zeros(n_nnz)
-- 
2.43.0


From d37798aafcc95a0915b472287e8d3a80b62e4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 64/99] fix: factor simulation study draws its factor
 correlations from its generator

---
 pystatsm/pyfa2/sim_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..5bbfe63 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -43,7 +43,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
     rng = np.random.default_rng(seed)
     L_true = generate_loadings(p, m, rng=rng)
     L_true = L_true + L_true[:, np.r_[-1, np.arange(m - 1)]] / 8
-    Phi_true = np.eye(m) if rotation_kind == 'ortho' else generate_factor_corr(m)
+    Phi_true = np.eye(m) if rotation_kind == 'ortho' else generate_factor_corr(m, rng=rng)
     psi_true = generate_uniquenesses(p, rng=rng)
     model = FactorModel(L_true, Phi_true, psi_true)
 
-- 
2.43.0


From 566e70b4700e8779d3656d38cb2b2e9c210ebe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 65/99] fix: SimulatedSEM draws from its own generator

---
 pystatsm/pysem2/model_simulator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 7ef9738..5c0e368 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -6,8 +6,6 @@ from ..utilities.random import r_lkj, exact_rmvnorm
 from .model_specification import ModelSpecification
 from .formula import FormulaParser
 
-rng=np.random.default_rng()
-
 class SimulatedSEM:
     def __init__(self, formula, n_groups, n_obs_min=1000, n_obs_max=5000, rng=None):
         self.formula = formula
@@ -28,7 +26,7 @@ class SimulatedSEM:
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-            exog_cov = r_lkj(1, 1, len(exog_var_list)).squeeze()
+            exog_cov = r_lkj(1, 1, len(exog_var_list), rng=self.rng).squeeze()
             nonx_cov = np.eye(len(nonx_var_list))
             obs_cov = sp.linalg.block_diag(exog_cov, nonx_cov)
         else:
@@ -36,7 +34,8 @@ class SimulatedSEM:
         means = np.linspace(-3, 3, self.n_groups)
         dfs = []
         for i in range(self.n_groups):
-            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)))
+            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)),
+                                rng=self.rng)
             arr = pd.DataFrame(arr, columns=obs_var_list)
             arr["group"] = i
             dfs.append(arr)
@@ -84,7 +83,7 @@ class SimulatedSEM:
             mu[i] = L[i].dot(B[i]).dot(b[i].T)+a[i].T
         dfs = []
         for i in range(self.n_groups):
-            arr = rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
+            arr = self.rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
             arr = pd.DataFrame(arr, columns=Sigma[i].columns)
             arr["group"] = i
             dfs.append(arr)
-- 
2.43.0


From 30383f2a776dc4ad48bd127c4dea6faccc30550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 66/99] fix: LinearModelSim uses the generator it is given

---
 pystatsm/pyglm2/model_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 94d26d4..521a5b6 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -28,7 +28,7 @@ class LinearModelSim(object):
     def __init__(self, n_obs=1000, n_var=10, formula=None, cat_terms=None,
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
-        self.rng = rng if rng is None else np.random.default_rng(seed)
+        self.rng = np.random.default_rng(seed) if rng is None else rng
         self.seed = seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
@@ -42,7 +42,7 @@ class LinearModelSim(object):
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
         corr_kws = func_utils.handle_default_kws(corr_kws, {"rng":self.rng})
         self.corr = self._make_corr_matrix(self.n_var, **corr_kws)
-        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr, seed=self.seed)
+        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr, rng=self.rng)
         self.Z2 = self.Z1.copy()
         
         for i in self.cat_inds:
@@ -83,9 +83,9 @@ class LinearModelSim(object):
 
     
     @staticmethod
-    def _make_underlying_matrix(n_obs, corr, mat_kws=None, seed=None):
+    def _make_underlying_matrix(n_obs, corr, mat_kws=None, seed=None, rng=None):
         mat_kws = func_utils.handle_default_kws(mat_kws, 
-                            {"n":n_obs, "seed":seed})
+                            {"n":n_obs, "seed":seed, "rng":rng})
         X = random.exact_rmvnorm(corr, **mat_kws)
         return X
     
-- 
2.43.0


From 22666326f84377f80b278ac4dc4ae051e00384af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 67/99] fix: second derivatives of the implied covariance start
 from a zero selector matrix

hessian, d2sigma_augmented and hessian_augmented used the identity stored in
self.E as the initially empty selector and cleared its diagonal while looping,
so the first evaluation was wrong and differed from every later one.
---
 pystatsm/pyfa/factor_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52d7068..e2d65f9 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -200,7 +200,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
 
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E * 0.0
         Hij = np.zeros((self.n_pars, self.n_pars))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
@@ -278,7 +278,7 @@ class FactorAnalysis(object):
     def d2sigma_augmented(self, params):
         L, Phi, Psi = self.model_matrices_augmented(params)
         Hpp = []
-        Ik, E = self.Ik, self.E
+        Ik, E = self.Ik, self.E * 0.0
         ix = vech(np.eye(L.shape[1]))!=1
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
@@ -395,7 +395,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
         ix = vech(np.eye(L.shape[1]))!=1
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E * 0.0
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
-- 
2.43.0


From 9861bd7293fd39e44fb8a1a300ac4afdc866162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 68/99] fix: hessian_canonical has the sign of the function it
 differentiates

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index e2d65f9..47ebf2d 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -443,7 +443,7 @@ class FactorAnalysis(object):
             b1 = (2 * u[i] - 1) * A
             b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
-        H = -Psi_inv.dot(B).dot(Psi_inv)
+        H = Psi_inv.dot(B).dot(Psi_inv)
         return H
 
     def loadings_from_psi(self, psi):
-- 
2.43.0


From 1232dbf07cac950d3a2f6411c86cb309845266e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 69/99] fix: parameters shared between groups keep the full
 free-parameter dimension in the chain rule

The map from free to distinct parameters was only as wide as the last first
occurrence, so gradient and Hessian of a model whose last parameters are
shared between groups failed with a dimension mismatch.
---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 9fbb959..560d7a6 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From b926cee20fccac0f0e266d36771607e5a2970960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 70/99] fix: pysem keeps the full free-parameter dimension when
 groups share parameters

---
 pystatsm/pysem/param_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index c0f766c..ccfa132 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -28,8 +28,8 @@ def _default_sort_key(item):
     return (alphabetic_part, numeric_part)
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max()+1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max()+1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
@@ -527,7 +527,7 @@ class BaseModel:
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(
             unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From 01454bf19bb1628b1ff9f14dbd193ff4e68b5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 71/99] fix: second derivative of the implied mean in B has
 both orderings

---
 pystatsm/pysem/derivatives.py  | 2 +-
 pystatsm/pysem2/derivatives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/derivatives.py b/pystatsm/pysem/derivatives.py
index 00ee46b..6024a6f 100644
--- a/pystatsm/pysem/derivatives.py
+++ b/pystatsm/pysem/derivatives.py
@@ -86,7 +86,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C3.dot(Ji) + C2.dot(Jj)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..580ed7e 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C3.dot(Ji) + C2.dot(Jj)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From 2116a3470d851dfa1990409b5e9fefb1557be8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 72/99] fix: p-values of the reported t and z statistics are
 two-sided

---
 pystatsm/pygam/gam.py                     | 2 +-
 pystatsm/pygam/gauls.py                   | 2 +-
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 pystatsm/pylmm/glmm_mcmc.py               | 2 +-
 pystatsm/pylmm/lmm.py                     | 2 +-
 pystatsm/pylmm/mlmm.py                    | 2 +-
 pystatsm/pylmm/re_mod.py                  | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..572d807 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -675,7 +675,7 @@ class GAM:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..b7e0201 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1088,7 +1088,7 @@ class GauLS:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..0bff55a 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -284,7 +284,7 @@ class GaussianAdditiveModel:
         
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index b1257a4..70f36eb 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -608,7 +608,7 @@ class MixedMCMC(LMM):
         self.res = self.summary.copy()
         self.res.index = self.param_names
         self.res.insert(2, "z-value", self.res["mean"]/self.res["sd"])
-        self.res.insert(3, "p-value", sp.stats.norm(0, 1).sf(np.abs(self.res["z-value"])))
+        self.res.insert(3, "p-value", sp.stats.norm(0, 1).sf(np.abs(self.res["z-value"])) * 2.0)
         self.beta = np.mean(samples[:, burnin:, self.vnames["$\\beta$"]], axis=(0, 1))
         self.theta = np.mean(samples[:, burnin:, self.vnames["$\\theta$"]], axis=(0, 1))
         if self.response_dist == 'ordinal_probit':
diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 575c5ad..713f10d 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -648,7 +648,7 @@ class LMM(object):
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = (self.X.shape[0] - self.X.shape[1])*1.0
         if adjusted_pvals:
             L = np.eye(self.X.shape[1])
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 293a4be..598e03d 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -525,7 +525,7 @@ class MLMM:
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t'])) * 2.0
         self.res = res
 
 
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..023ff19 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1133,7 +1133,7 @@ class LMM2(object):
         res = pd.DataFrame(np.vstack([self.params, self.se_params]).T,
                            index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = float(n_obs - n_fe)
         self.res = res
         self.sumstats = pd.DataFrame(
-- 
2.43.0


From e2ae40ad4111356e11dd90a85b8fc699e61f3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 73/99] fix: icc reports mean squares and F statistics in their
 own rows

---
 pystatsm/misc/icc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/misc/icc.py b/pystatsm/misc/icc.py
index f764b4b..d5c9df7 100644
--- a/pystatsm/misc/icc.py
+++ b/pystatsm/misc/icc.py
@@ -146,7 +146,8 @@ def icc(subject_var, rater_var, residual_var, n_subjects, n_raters):
     stats = np.zeros((5, 3))
     stats[0] = df_subject, df_rater, df_residual
     stats[1] = ms_subject * df_subject, ms_rater * df_rater, residual_var * df_residual
-    stats[2] = f_subject, f_rater, np.nan
+    stats[2] = ms_subject, ms_rater, residual_var
+    stats[3] = f_subject, f_rater, np.nan
     stats[4] = p_subject, p_rater, np.nan
     stats = pd.DataFrame(stats,columns=["subs", "judges", "resids"],
                               index=["df", "ssq", "ms", "f", "p"])
-- 
2.43.0


From 89b17717dc2d1f2dca6dace7445f7d9041ea0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 74/99] fix: information criteria charge two per parameter
 against minus twice the log-likelihood

---
 pystatsm/pyglm/betareg.py  | 8 ++++----
 pystatsm/pyglm/glm.py      | 2 +-
 pystatsm/pyglm/zimodels.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index e2f043c..1a0e425 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -167,10 +167,10 @@ class BetaReg:
         k = len(self.theta)
         N = self.n_obs
         sumstats = {}
-        sumstats['aic'] = -2.0*self.llf + k
-        sumstats['aicc'] = -2*self.llf + (2 * k * N) / (N - k - 1)
-        sumstats['bic'] = -2*self.llf + np.log(N)*k
-        sumstats['caic'] = -2*self.llf + k*(np.log(N) + 1.0)
+        sumstats['aic'] = 2.0*self.llf + 2*k
+        sumstats['aicc'] = 2*self.llf + (2 * k * N) / (N - k - 1)
+        sumstats['bic'] = 2*self.llf + np.log(N)*k
+        sumstats['caic'] = 2*self.llf + k*(np.log(N) + 1.0)
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 775e6bf..ceb7758 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -290,7 +290,7 @@ class GLM:
         k = len(params)
         N = self.X.shape[0]
         sumstats = {}
-        sumstats['aic'] = 2*llf + k
+        sumstats['aic'] = 2*llf + 2*k
         sumstats['aicc'] = 2*llf + (2 * k * N) / (N - k - 1)
         sumstats['bic'] = 2*llf + np.log(N)*k
         sumstats['caic'] = 2*llf + k*(np.log(N) + 1.0)
diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..aeaf6ca 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -183,7 +183,7 @@ class ZIP:
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-        self.aicc = self.aic + (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
+        self.aicc = self.aic + 2.0*(self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
         self.yhat, self.yhvar = self.predict(self.params)
         self.resids = self.y - self.yhat
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
-- 
2.43.0


From b797c5d5f7081f218df3d161239f679788440e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 75/99] fix: cumulative link likelihood ratio is twice the
 log-likelihood difference

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..661041f 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -156,7 +156,7 @@ class CLM:
         degfree_r = len(paramsr)
         degfree_llr = degfree_f - degfree_r
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
-- 
2.43.0


From b29772075f072b5684d32bbdb2dfc46d72d06f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 76/99] fix: pseudo R-squared measures use the sign the
 log-likelihoods are stored with

---
 pystatsm/pyglm/betareg.py           | 8 ++++----
 pystatsm/pyglm/clm.py               | 2 +-
 pystatsm/pyglm/glm.py               | 2 +-
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm/zimodels.py          | 6 +++---
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index 1a0e425..a1a2853 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -174,11 +174,11 @@ class BetaReg:
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-        rmax = 1-np.exp(2.0 / N *self.lln)
+        rmax = 1-np.exp(-2.0 / N *self.lln)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
-        sumstats['PseudoR2_MCF'] = 1 - self.lln / self.llf
-        sumstats['PseudoR2_MCFA'] = 1 - (self.lln - k) / (self.llf)
-        sumstats['PseudoR2_MFA'] = 1 - (self.llr) / (self.llr + N)
+        sumstats['PseudoR2_MCF'] = 1 - self.llf / self.lln
+        sumstats['PseudoR2_MCFA'] = 1 - (self.llf + k) / (self.lln)
+        sumstats['PseudoR2_MFA'] = (self.llr) / (self.llr + N)
         self.sumstats = sumstats
     
     def predict(self, theta=None, X=None, Z=None):
diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 661041f..e7124ab 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -162,7 +162,7 @@ class CLM:
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
         r2_coxsnell = 1 - np.exp(2.0/n*(LLf - LL0))
         r2_mcfadden = 1 - LLf / LL0
-        r2_mcfadden_adj = 1 - (LLf-p) / LL0
+        r2_mcfadden_adj = 1 - (LLf+p) / LL0
         r2_nagelkerke = r2_coxsnell / rmax
         
         statistic = dict(LLR=LLR, 
diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index ceb7758..6475be3 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -304,7 +304,7 @@ class GLM:
         LLR = 2*(lln - llf)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] = 1 - self.LLA / self.LL0
-        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA - k) / self.LL0
+        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA + 2*k) / self.LL0
         sumstats['PseudoR2_MFA'] =  (LLR) / (LLR + N)
         
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 902edbc..c4d6392 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index aeaf6ca..e73e871 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -189,11 +189,11 @@ class ZIP:
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
         sumstats = dict(AIC=self.aic, AICc=self.aicc, BIC=self.bic, LLR=self.ll_ratio,
                         LLRp=self.ll_rpval)
-        sumstats['PseudoR2_CS'] = 1 - np.exp(1.0/ self.n_obs * (self.ll_null - self.ll_model))
-        rmax = 1-np.exp(1.0 / self.n_obs *(self.ll_null))
+        sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/ self.n_obs * (self.ll_null - self.ll_model))
+        rmax = 1-np.exp(2.0 / self.n_obs *(self.ll_null))
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] =  1.0 - self.ll_model / self.ll_null
-        sumstats['PseudoR2_MCFA'] = 1.0 - (-self.ll_model - self.n_params) / -self.ll_null
+        sumstats['PseudoR2_MCFA'] = 1.0 - (self.ll_model - self.n_params) / self.ll_null
         sumstats['PseudoR2_MFA'] = (self.ll_ratio) / (self.ll_ratio + self.n_obs)
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
 
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..7f96aea 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((ll_model + n_params) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From c9bd2251a34f150f660ea4068ec82f8c83dc4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 77/99] fix: chi-square fit measures use the degrees of freedom
 of the model they test

---
 pystatsm/pyfa/efa.py          | 2 +-
 pystatsm/pyfa/fit_measures.py | 2 +-
 pystatsm/pysem/sem.py         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..526a8e1 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -589,7 +589,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..582af9a 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..cefdc0e 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -477,7 +477,7 @@ class SEM:
         LLF = self.n_obs * LL + self.n_obs * self.p * np.log(2.0 * np.pi)
         fval =  LL - self.ldS - self.p
         Chi2 = (self.n_obs - 1) * fval
-        Chi2_pval = sp.stats.chi2(t).sf(Chi2)
+        Chi2_pval = sp.stats.chi2(df).sf(Chi2)
         GFI = 1.0 - np.trace((SV - self.Ip).dot(SV-self.Ip)) / np.trace(SV.dot(SV))
         if df!=0:
             AGFI = 1.0 - (self.df_cov / df) *  (1.0 - GFI)
@@ -487,7 +487,7 @@ class SEM:
             AGFI = np.nan
             Standardized_Chi2 = np.nan
             RMSEA = np.nan
-        CN01, CN05 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
+        CN01, CN05 = sp.stats.chi2(df).ppf([0.99, 0.95]) / fval + 1.0
 
         AIC = LLF + 2.0  * t
         BIC = LLF + np.log(self.n_obs) * t
-- 
2.43.0


From 0d9007d3fc09b8a32ff4ca8434f7d3c4687ae2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 78/99] fix: t tests use residual degrees of freedom, not the
 number of parameters

---
 pystatsm/pygam/gam.py                     | 2 +-
 pystatsm/pygam/gauls.py                   | 2 +-
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 pystatsm/pyglm/zimodels.py                | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index 572d807..7be88d6 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -675,7 +675,7 @@ class GAM:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
+        p = sp.stats.t(self.n_obs - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index b7e0201..c1b6a85 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1088,7 +1088,7 @@ class GauLS:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
+        p = sp.stats.t(self.m.n_obs - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 0bff55a..289a299 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -273,7 +273,7 @@ class GaussianAdditiveModel:
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX)/scale)
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
@@ -284,7 +284,7 @@ class GaussianAdditiveModel:
         
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t)) * 2.0
+        p = sp.stats.t(self.X.shape[0] - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index e73e871..638d40c 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -175,7 +175,7 @@ class ZIP:
         self.params = self.opt.x
         self.se_params = np.diag(np.linalg.inv(self.hessian(self.params)))**0.5
         t = self.params / self.se_params
-        p = sp.stats.t(self.n_params).sf(np.abs(t))*2.0
+        p = sp.stats.t(self.n_obs - self.n_params).sf(np.abs(t))*2.0
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
-- 
2.43.0


From 27f21a42bd6be2934060b5c2e7796ebaad8f5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 79/99] fix: jac_approx and hess_approx pass extra arguments on
 to the function

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..be7ebf7 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
-- 
2.43.0


From e3e54fb3aad9ed114b22faa6e7443b554d5a8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 80/99] fix: approximate Hessian of mixed models has
 off-diagonal entries and passes extra arguments on

---
 pystatsm/pylmm/glmm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index c4132ac..1b8d32d 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -45,12 +45,15 @@ def approx_hess(f, x, *args, eps=None):
         for j in range(i+1):
             ei[i], ej[j] = eps, eps
             if i==j:
-                dn = -f(x+2*ei)+16*f(x+ei)-30*f(x)+16*f(x-ei)-f(x-2*ei)
+                dn = -f(x+2*ei, *args)+16*f(x+ei, *args)-30*f(x, *args)\
+                    +16*f(x-ei, *args)-f(x-2*ei, *args)
                 nm = 12*eps**2
                 H[i, j] = dn/nm
             else:
-                dn = f(x+ei+ej)-f(x+ei-ej)-f(x-ei+ej)+f(x-ei-ej)
+                dn = f(x+ei+ej, *args)-f(x+ei-ej, *args)-f(x-ei+ej, *args)\
+                    +f(x-ei-ej, *args)
                 nm = 4*eps*eps
+                H[i, j] = H[j, i] = dn/nm
 
             ei[i], ej[j] = 0.0, 0.0
     return H
-- 
2.43.0


From 6718b21f554c92589dfca1f8738e66484cfb0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 81/99] fix: MLMM.loglike_c passes reml by name; ML standard
 errors of mixed models use the ML Hessian

---
 pystatsm/pylmm/lmm.py  | 19 +++++++++++--------
 pystatsm/pylmm/mlmm.py |  8 ++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 713f10d..a5057a7 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -461,6 +461,9 @@ class LMM(object):
         U = np.linalg.solve(XtWX, WX.T)
         ZtP = WZ.T - ZtWX.dot(np.linalg.solve(XtWX, WX.T))
         ZtPZ = Z.T.dot(ZtP.T)
+        # the determinant terms involve P for REML and W = V^{-1} for ML
+        ZtT = ZtP if reml else WZ.T.toarray()
+        ZtTZ = Z.T.dot(ZtT.T)
         Py = W.dot(y) - WX.dot(U.dot(y))
         ZtPy = Z.T.dot(Py)
         PPy = W.dot(Py) - WX.dot(U.dot(Py))
@@ -470,11 +473,11 @@ class LMM(object):
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
+            ZtTZi = ZtTZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtPi = ZtT[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
-                PJ.append(dGdi.dot(ZtPZi))
+                PJ.append(dGdi.dot(ZtTZi))
                 yPZJ.append(dGdi.dot(ZtPyi))
                 ZPJ.append((dGdi.dot(ZtPi)).T)
                 ix.append(ind)
@@ -488,13 +491,13 @@ class LMM(object):
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtP = (dR.dot(ZtT.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
             ZPJi = ZPJ[i]
             ZtPPyi = ZtPPy[ix[i]]
             H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
+        P = W - WX.dot(U) if reml else W.toarray()
         H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
         return H
 
@@ -583,11 +586,11 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 598e03d..c75a82d 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -366,7 +366,7 @@ class MLMM:
 
     def loglike_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
-        return self.loglike(theta, reml)
+        return self.loglike(theta, reml=reml)
 
     def gradient_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
@@ -454,11 +454,11 @@ class MLMM:
             re_corrs[key] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(lambda x: self.loglike(x, reml=reml), theta)
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From f84820c8e5f9c6386b29ade0f6147ccdc97992d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 82/99] fix: method argument of GLM and CLM fit reaches the
 optimizer

---
 pystatsm/pyglm/linear_model.py | 2 ++
 pystatsm/pyglm2/clm.py         | 4 +++-
 pystatsm/pyglm2/glm.py         | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index c4d6392..bcfa33f 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1667,6 +1667,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         return beta_init, phi_init
 
     def _fit(self, method=None, opt_kws=None):
+        if method is not None:
+            opt_kws = {**({} if opt_kws is None else opt_kws), "method": method}
         opt = self._optimize(opt_kws=opt_kws)
         params = opt.x
         return params, opt
diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index dea3cd1..de59d83 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,9 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        if method is not None:
+            opt_kws = {**({} if opt_kws is None else opt_kws), "method": method}
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 09d84d9..8b52404 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -278,6 +278,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         return beta_init, phi_init
 
     def _fit(self, method=None, opt_kws=None):
+        if method is not None:
+            opt_kws = {**({} if opt_kws is None else opt_kws), "method": method}
         opt = self._optimize(opt_kws=opt_kws)
         params = opt.x
         return params, opt
-- 
2.43.0


From ed6643aa6916d07638ebc41820aaa004ec1a9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 83/99] fix: GLMEN.fit and fit_cv pass n_iters and intercept on
 and unpack the solver results in order

---
 pystatsm/pyglmnet/glmen.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..36f865c 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -61,7 +61,12 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        res = self._fit(X, y, lambda_, alpha, n_iters=n_iters,
+                        intercept=intercept, **kws)
+        if self.family == "binomial":
+            beta, _, active, fvals, _ = res
+        else:
+            beta, fvals, active, _ = res
         self.beta = beta 
         self.active = active
         self.fvals = fvals
@@ -73,7 +78,8 @@ class GLMEN:
         b_path, b0_path, f_path, lambdas, bfits, b0, n_its = self._fit_cv(
                                                             cv, X, y, alpha, 
                                                             lambdas=lambdas,
-                                                            n_iters=n_iters, b=b, 
+                                                            n_iters=n_iters, b=b,
+                                                            intercept=intercept,
                                                             refit=refit, **kws)
         self.beta_path = b_path
         self.f_path = f_path
-- 
2.43.0


From 7989f08162463adc43fdef75a63844ee6ce34a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 84/99] fix: SparseRegressionModel uses rho

---
 pystatsm/pyglmnet/sparse_model_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/sparse_model_sim.py b/pystatsm/pyglmnet/sparse_model_sim.py
index 3887614..ce9380b 100644
--- a/pystatsm/pyglmnet/sparse_model_sim.py
+++ b/pystatsm/pyglmnet/sparse_model_sim.py
@@ -18,8 +18,8 @@ class SparseRegressionModel:
                  xw=None):
         rng = np.random.default_rng(seed) if rng is None else rng
         if x_cov is None:
-            rho = 0.9 if rho is None else rho
-            x_cov = 0.99**sp.linalg.toeplitz(np.arange(n_var))
+            rho = 0.99 if rho is None else rho
+            x_cov = rho**sp.linalg.toeplitz(np.arange(n_var))
         
         X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), rng=rng)[:n_obs]
         if xw is not None:
-- 
2.43.0


From b9b2f0a0aea5f8dbb051a3c96f8fb5b60b94f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 85/99] fix: plot_profile uses figsize

---
 pystatsm/pylmm/prf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/prf.py b/pystatsm/pylmm/prf.py
index 422e35c..caefada 100644
--- a/pystatsm/pylmm/prf.py
+++ b/pystatsm/pylmm/prf.py
@@ -153,7 +153,7 @@ def profile(n_points, model, tb=3):
     return thetas, zetas, ix 
     
     
-def plot_profile(model, thetas, zetas, ix, quantiles=None, figsize=(16, 8)):
+def plot_profile(model, thetas, zetas, ix, quantiles=None, figsize=(14, 4)):
     if quantiles is None:
         quantiles = np.array([60, 70, 80, 90, 95, 99])
         quantiles = np.concatenate([(100-quantiles[::-1])/2, 100-(100-quantiles)/2])
@@ -161,7 +161,7 @@ def plot_profile(model, thetas, zetas, ix, quantiles=None, figsize=(16, 8)):
     se_theta = model.se_theta.copy()
     n_thetas = thetas.shape[1]
     q = sp.stats.norm(0, 1).ppf(np.array(quantiles)/100)
-    fig, axes = plt.subplots(figsize=(14, 4), ncols=n_thetas, sharey=True)
+    fig, axes = plt.subplots(figsize=figsize, ncols=n_thetas, sharey=True)
     plt.subplots_adjust(wspace=0.05, left=0.05, right=0.95)
     for i in range(n_thetas):
         ax = axes[i]
-- 
2.43.0


From 6b0420c7dbfab31974d0aca8aa5d3618b845705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 86/99] fix: factor 2 in the Satterthwaite degrees of freedom
 of LMM2

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 023ff19..bc3df1f 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1305,7 +1305,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 09880d2f9323be887f0723cbf8493c4945c5fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 87/99] fix: default sort key distinguishes all names

---
 pystatsm/pysem2/sort_key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/sort_key.py b/pystatsm/pysem2/sort_key.py
index c11fc1f..a3d1237 100644
--- a/pystatsm/pysem2/sort_key.py
+++ b/pystatsm/pysem2/sort_key.py
@@ -10,4 +10,4 @@ def _default_sort_key(item):
     else:
         alphabetic_part = item
         numeric_part = 0
-    return (alphabetic_part, numeric_part)
+    return (alphabetic_part, numeric_part, item)
-- 
2.43.0


From d765d5ddd608dde7125a6efdec5ea37406e4f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 88/99] fix: row order of added parameters does not depend on
 the hash seed

---
 pystatsm/pysem/formula.py          | 8 ++++----
 pystatsm/pysem/param_table.py      | 4 ++--
 pystatsm/pysem2/model_builder.py   | 6 +++---
 pystatsm/pysem2/model_simulator.py | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pysem/formula.py b/pystatsm/pysem/formula.py
index 11140ef..111adea 100644
--- a/pystatsm/pysem/formula.py
+++ b/pystatsm/pysem/formula.py
@@ -14,7 +14,7 @@ def _default_sort_key(item):
         else:
             alphabetic_part = item
             numeric_part = 0
-        return (alphabetic_part, numeric_part)    
+        return (alphabetic_part, numeric_part, item)    
 
 class FormulaParser:
     matrix_names = ["L", "B", "F", "P", "a", "b"]
@@ -182,7 +182,7 @@ class FormulaParser:
     
     def add_covs(self, var_names, lhs, rel, rhs, cov=True):
         n = len(var_names)
-        var_names = list(var_names)
+        var_names = sorted(var_names, key=_default_sort_key)
         if cov:
             for i, j in list(zip(*tril_indices(n, k=-1))):
                 l, r = var_names[i], var_names[j]
@@ -198,7 +198,7 @@ class FormulaParser:
     def add_means(self, lhs, rel, rhs):
         names = set(self.names["lv_extended"]).union(self.names["ov"])
         n = len(names)
-        lhs.extend(list(names))
+        lhs.extend(sorted(names, key=_default_sort_key))
         rel.extend(["~" for i in range(n)])
         rhs.extend(["1" for i in range(n)])
         return lhs, rel, rhs
@@ -668,7 +668,7 @@ class ModelSpecification:
     
     def add_covs(self, var_names, lhs, rhs, cov=True):
         n = len(var_names)
-        var_names = list(var_names)
+        var_names = sorted(var_names, key=_default_sort_key)
         if cov:
             for i, j in list(zip(*tril_indices(n, k=-1))):
                 l, r = var_names[i], var_names[j]
diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index ccfa132..5299e64 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -25,7 +25,7 @@ def _default_sort_key(item):
     else:
         alphabetic_part = item
         numeric_part = 0
-    return (alphabetic_part, numeric_part)
+    return (alphabetic_part, numeric_part, item)
 
 
 def equality_constraint_mat(unique_locs, n=None):
@@ -273,7 +273,7 @@ class BaseModel:
         var_names, param_df = self.var_names, self.param_df
         list_of_param_dicts = param_df.to_dict(orient="records")
         vars_to_add = self.check_missing_means(var_names["all"])
-        for var in vars_to_add:
+        for var in sorted(vars_to_add, key=_default_sort_key):
             row = {"lhs": var, "rel": "~", "rhs": "1",
                    "start": 0.0, "fixed": False}
             if fix_lv_mean:
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..00ab3ec 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -85,7 +85,7 @@ class ModelBuilder:
         var_names, param_df = self.var_names, self.param_df
         vars_to_add = self.check_missing_variances(var_names["all"])
         list_of_param_dicts = param_df.to_dict(orient="records")
-        for var in vars_to_add:
+        for var in sorted(vars_to_add, key=_default_sort_key):
             row = {"lhs": var, "rel": "~~", "rhs": var, "start": 1.0, "dummy": False}
             if var in var_names["lox"]:
                 row["fixed"] = True
@@ -202,7 +202,7 @@ class ModelBuilder:
         var_names, param_df = self.var_names, self.param_df
         list_of_param_dicts = param_df.to_dict(orient="records")
         vars_to_add = self.check_missing_means(var_names["all"])
-        for var in vars_to_add:
+        for var in sorted(vars_to_add, key=_default_sort_key):
             row = {"lhs": var, "rel": "~", "rhs": "1",
                    "start": 0.0, "fixed": False, "dummy": False}
             if fix_lv_mean:
@@ -264,7 +264,7 @@ class ModelBuilder:
         vars_to_add = self.check_latent_dummies(vars_to_check)
         if len(vars_to_add) > 0:
             list_of_param_dicts = param_df.to_dict(orient="records")
-            for var in vars_to_add:
+            for var in sorted(vars_to_add, key=_default_sort_key):
                 row = {"lhs": var, "rel": "=~", "rhs": var, "fixed": True, "fixedval": 1, "dummy": True}
                 list_of_param_dicts.append(row)
             self.param_df = pd.DataFrame(list_of_param_dicts)
diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 5c0e368..cb13b8b 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -22,7 +22,7 @@ class SimulatedSEM:
 
     def generate_data(self, n_obs):
         formula_parser = FormulaParser(self.formula)
-        exog_var_list = list(formula_parser.var_names["lox"])
+        exog_var_list = sorted(formula_parser.var_names["lox"])
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-- 
2.43.0


From fefb40b26537ac9655907aaf655a2f52322c55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 89/99] fix: simulated random effects are stacked in formula
 order

---
 pystatsm/pylmm/sim_lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 8227e74..fd513ff 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -27,7 +27,7 @@ def parse_vars(formula, model_dict):
         frm = frm.replace(x, "")
     fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
     re_form, re_groupings = list(zip(*groups))
-    re_form, re_groupings = set(re_form), set(re_groupings)
+    re_form, re_groupings = set(re_form), list(dict.fromkeys(re_groupings))
 
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub("\+$", "", fe_form)
-- 
2.43.0


From 0defdb42cfd5192147dc39857d7c860482c553b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 90/99] fix: sparse kernels report failed workspace allocation
 instead of using it

---
 pystatsm/utilities/cython_wrappers.pyx        | 40 ++++++++++---------
 pystatsm/utilities/src/cs_add_inplace.c       |  6 ++-
 pystatsm/utilities/src/cs_add_inplace.h       |  2 +-
 .../utilities/src/cs_add_inplace_complex.c    |  6 ++-
 .../utilities/src/cs_add_inplace_complex.h    |  2 +-
 pystatsm/utilities/src/cs_matmul_inplace.c    |  9 ++++-
 pystatsm/utilities/src/cs_matmul_inplace.h    |  2 +-
 .../utilities/src/cs_matmul_inplace_complex.c |  9 ++++-
 .../utilities/src/cs_matmul_inplace_complex.h |  2 +-
 9 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/pystatsm/utilities/cython_wrappers.pyx b/pystatsm/utilities/cython_wrappers.pyx
index e2d6d6c..549e2d0 100644
--- a/pystatsm/utilities/cython_wrappers.pyx
+++ b/pystatsm/utilities/cython_wrappers.pyx
@@ -15,7 +15,7 @@ def coo_to_csc_wrapper(int Anr, int Anc, int Anz,
     coo_to_csc(Anr, Anc, Anz, &Ai[0], &Aj[0], &Ax[0], &Bp[0], &Bi[0], &Bx[0])
 
 cdef extern from "cs_add_inplace.h":
-    void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+    int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
                 const int *Bp, const int *Bi, const double *Bx,
                 double alpha, double beta,
                 int *Cp, int *Ci, double *Cx, int Cnr, int Cnc)
@@ -31,10 +31,11 @@ def cs_add_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                    np.ndarray[double, ndim=1, mode="c"] Cx not None,
                    int Cnr, int Cnc):
-    cs_add_inplace(&Ap[0], &Ai[0], &Ax[0],
-                   &Bp[0], &Bi[0], &Bx[0],
-                   alpha, beta,
-                   &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc)
+    if cs_add_inplace(&Ap[0], &Ai[0], &Ax[0],
+                      &Bp[0], &Bi[0], &Bx[0],
+                      alpha, beta,
+                      &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc) != 0:
+        raise MemoryError()
 
 
 cdef extern from "cs_kron_ss.h":
@@ -105,7 +106,7 @@ def cs_kron_ds_inplace_wrapper(np.ndarray[double, ndim=2, mode="fortran"] A not
                        &Cx[0])
 
 cdef extern from "cs_matmul_inplace.h":
-    void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+    int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                            const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                            int *Cp, int *Ci, double *Cx)
 
@@ -120,9 +121,10 @@ def cs_matmul_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                               np.ndarray[int, ndim=1, mode="c"] Cp not None,
                               np.ndarray[int, ndim=1, mode="c"] Ci not None,
                               np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-                      &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-                      &Cp[0], &Ci[0], &Cx[0])
+    if cs_matmul_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
+                         &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
+                         &Cp[0], &Ci[0], &Cx[0]) != 0:
+        raise MemoryError()
     
 
 cdef extern from "cs_kron_sd.h":
@@ -282,7 +284,7 @@ def naive_matmul_inplace2_wrapper(np.ndarray[double, ndim=2, mode="c"] A not Non
 
 
 cdef extern from "cs_matmul_inplace_complex.h":
-    void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
+    int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
                                    const int *Bp, const int *Bi, const double complex *Bx, int Bnr, int Bnc,
                                    int *Cp, int *Ci, double complex *Cx)
     
@@ -297,13 +299,14 @@ def cs_matmul_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not N
                                       np.ndarray[int, ndim=1, mode="c"] Cp not None,
                                       np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                       np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0], Anr, Anc,
-                              &Bp[0], &Bi[0], <double complex*>&Bx[0], Bnr, Bnc,
-                              &Cp[0], &Ci[0], <double complex*>&Cx[0])
+    if cs_matmul_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0], Anr, Anc,
+                                 &Bp[0], &Bi[0], <double complex*>&Bx[0], Bnr, Bnc,
+                                 &Cp[0], &Ci[0], <double complex*>&Cx[0]) != 0:
+        raise MemoryError()
     
     
 cdef extern from "cs_add_inplace_complex.h":
-    void cs_add_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax,
+    int cs_add_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax,
                                 const int *Bp, const int *Bi, const double complex *Bx,
                                 double complex alpha, double complex beta,
                                 int *Cp, int *Ci, double complex *Cx, int Cnr, int Cnc)
@@ -320,8 +323,9 @@ def cs_add_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None
                                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                    np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None,
                                    int Cnr, int Cnc):
-    cs_add_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0],
-                           &Bp[0], &Bi[0], <double complex*>&Bx[0],
-                           <double complex>alpha, <double complex>beta,
-                           &Cp[0], &Ci[0], <double complex*>&Cx[0], Cnr, Cnc)
+    if cs_add_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0],
+                              &Bp[0], &Bi[0], <double complex*>&Bx[0],
+                              <double complex>alpha, <double complex>beta,
+                              &Cp[0], &Ci[0], <double complex*>&Cx[0], Cnr, Cnc) != 0:
+        raise MemoryError()
     
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace.c b/pystatsm/utilities/src/cs_add_inplace.c
index 33ef024..01c3b22 100644
--- a/pystatsm/utilities/src/cs_add_inplace.c
+++ b/pystatsm/utilities/src/cs_add_inplace.c
@@ -1,11 +1,14 @@
 #include "cs_add_inplace.h"
 #include <stdlib.h>
 
-void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
             const int *Bp, const int *Bi, const double *Bx,
             double alpha, double beta,
             int *Cp, int *Ci, double *Cx, int Cnr, int Cnc) {
     double *x = (double *)calloc(Cnr, sizeof(double));
+    if (x == NULL) {
+        return -1;
+    }
     
     for (int j = 0; j < Cnc; j++) {
         for (int p = Ap[j]; p < Ap[j+1]; p++) {
@@ -23,4 +26,5 @@ void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
     }
     
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace.h b/pystatsm/utilities/src/cs_add_inplace.h
index 3f35e51..ff3fb9f 100644
--- a/pystatsm/utilities/src/cs_add_inplace.h
+++ b/pystatsm/utilities/src/cs_add_inplace.h
@@ -1,4 +1,4 @@
-void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
                     const int *Bp, const int *Bi, const double *Bx,
                     double alpha, double beta,
                     int *Cp, int *Ci, double *Cx, int Cnr, int Cnc);
diff --git a/pystatsm/utilities/src/cs_add_inplace_complex.c b/pystatsm/utilities/src/cs_add_inplace_complex.c
index 2fd3b1b..690e393 100644
--- a/pystatsm/utilities/src/cs_add_inplace_complex.c
+++ b/pystatsm/utilities/src/cs_add_inplace_complex.c
@@ -2,11 +2,14 @@
 #include <stdlib.h>
 #include <complex.h>
 
-void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
+int cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
                             const int *Bp, const int *Bi, const double _Complex *Bx,
                             double _Complex alpha, double _Complex beta,
                             int *Cp, int *Ci, double _Complex *Cx, int Cnr, int Cnc) {
     double _Complex *x = (double _Complex *)calloc(Cnr, sizeof(double _Complex));
+    if (x == NULL) {
+        return -1;
+    }
     
     for (int j = 0; j < Cnc; j++) {
         for (int p = Ap[j]; p < Ap[j+1]; p++) {
@@ -24,4 +27,5 @@ void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex
     }
     
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace_complex.h b/pystatsm/utilities/src/cs_add_inplace_complex.h
index 6930e1e..c74aaf8 100644
--- a/pystatsm/utilities/src/cs_add_inplace_complex.h
+++ b/pystatsm/utilities/src/cs_add_inplace_complex.h
@@ -1,4 +1,4 @@
-void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
+int cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
                             const int *Bp, const int *Bi, const double _Complex *Bx,
                             double _Complex alpha, double _Complex beta,
                             int *Cp, int *Ci, double _Complex *Cx, int Cnr, int Cnc);
diff --git a/pystatsm/utilities/src/cs_matmul_inplace.c b/pystatsm/utilities/src/cs_matmul_inplace.c
index a200d25..118ebdf 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace.c
+++ b/pystatsm/utilities/src/cs_matmul_inplace.c
@@ -1,13 +1,19 @@
 #include "cs_matmul_inplace.h"
 #include <stdlib.h>
 
-void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                        const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                        int *Cp, int *Ci, double *Cx) {
     int *w = (int *)malloc(Anr * sizeof(int));
     double *x = (double *)malloc(Anr * sizeof(double));
     int nz = 0;
 
+    if (w == NULL || x == NULL) {
+        free(w);
+        free(x);
+        return -1;
+    }
+
     for (int i = 0; i < Anr; i++) {
         w[i] = -1;
         x[i] = 0.0;
@@ -38,4 +44,5 @@ void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr,
 
     free(w);
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace.h b/pystatsm/utilities/src/cs_matmul_inplace.h
index fb00827..32f6cb6 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace.h
+++ b/pystatsm/utilities/src/cs_matmul_inplace.h
@@ -1,4 +1,4 @@
-void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                        const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                        int *Cp, int *Ci, double *Cx);
                       
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace_complex.c b/pystatsm/utilities/src/cs_matmul_inplace_complex.c
index ed06ce8..86157d1 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace_complex.c
+++ b/pystatsm/utilities/src/cs_matmul_inplace_complex.c
@@ -2,13 +2,19 @@
 #include "cs_matmul_inplace_complex.h"
 #include <stdlib.h>
 
-void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
+int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
                                const int *Bp, const int *Bi, const double complex *Bx, int Bnr, int Bnc,
                                int *Cp, int *Ci, double complex *Cx) {
     int *w = (int *)malloc(Anr * sizeof(int));
     double complex *x = (double complex *)malloc(Anr * sizeof(double complex));
     int nz = 0;
 
+    if (w == NULL || x == NULL) {
+        free(w);
+        free(x);
+        return -1;
+    }
+
     for (int i = 0; i < Anr; i++) {
         w[i] = -1;
         x[i] = 0.0 + 0.0 * I;
@@ -39,4 +45,5 @@ void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double comple
 
     free(w);
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace_complex.h b/pystatsm/utilities/src/cs_matmul_inplace_complex.h
index 99b3152..4397c43 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace_complex.h
+++ b/pystatsm/utilities/src/cs_matmul_inplace_complex.h
@@ -1,3 +1,3 @@
-void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax, int Anr, int Anc,
+int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax, int Anr, int Anc,
                                const int *Bp, const int *Bi, const double _Complex *Bx, int Bnr, int Bnc,
                                int *Cp, int *Ci, double _Complex *Cx);
\ No newline at end of file
-- 
2.43.0


From 90bae514ee5dd67dcd6f6a7be7aed9d87ebf014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 91/99] fix: index enumeration releases its buffer when an
 iteration raises

---
 pystatsm/utilities/ordered_indices.pyx | 39 ++++++++++++++------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/pystatsm/utilities/ordered_indices.pyx b/pystatsm/utilities/ordered_indices.pyx
index 1da1af5..45dfd46 100644
--- a/pystatsm/utilities/ordered_indices.pyx
+++ b/pystatsm/utilities/ordered_indices.pyx
@@ -28,13 +28,14 @@ def ascending_indices(tuple shape):
         if c_indices is NULL:
             raise MemoryError()
 
-        for i in range(length):
-            c_indices[i] = indices[i]
+        try:
+            for i in range(length):
+                c_indices[i] = indices[i]
 
-        if all_ascending(c_indices, length):
-            filtered_indices.append(indices)
-
-        free(c_indices)
+            if all_ascending(c_indices, length):
+                filtered_indices.append(indices)
+        finally:
+            free(c_indices)
 
     sorted_indices = sorted(filtered_indices)
     return sorted_indices
@@ -53,13 +54,14 @@ def descending_indices(tuple shape):
         if c_indices is NULL:
             raise MemoryError()
 
-        for i in range(length):
-            c_indices[i] = indices[i]
-
-        if all_descending(c_indices, length):
-            filtered_indices.append(indices)
+        try:
+            for i in range(length):
+                c_indices[i] = indices[i]
 
-        free(c_indices)
+            if all_descending(c_indices, length):
+                filtered_indices.append(indices)
+        finally:
+            free(c_indices)
 
     sorted_indices = sorted(filtered_indices, reverse=True)
     return sorted_indices
@@ -99,13 +101,14 @@ def generate_indices(tuple shape, bint ascending=True, bint first_indices_change
         if c_indices is NULL:
             raise MemoryError()
 
-        for i in range(length):
-            c_indices[i] = indices[i]
-
-        if monotonic(c_indices, length, ascending, strict):
-            filtered_indices.append(indices)
+        try:
+            for i in range(length):
+                c_indices[i] = indices[i]
 
-        free(c_indices)
+            if monotonic(c_indices, length, ascending, strict):
+                filtered_indices.append(indices)
+        finally:
+            free(c_indices)
 
     if not first_indices_change_fastest:
         filtered_indices = sorted(filtered_indices, key=lambda x: tuple(reversed(x)))
-- 
2.43.0


From 2c292f294b1cbe7fa2af7563dd84d9b00ccba0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 92/99] fix: identity-Kronecker product uses the factor's row
 count

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From 070790094fc2d92697c50c9f903d3ac4ad2e61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 93/99] fix: vinv_apply factors at the parameters it is given

---
 pystatsm/pylmm/re_mod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index bc3df1f..6507a29 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -901,6 +901,10 @@ class MMEBlocked(BaseMME):
     def vinv_apply(self, vec, theta):
         if not self._scalar_resid:
             raise NotImplementedError("vinv_apply requires scalar residual")
+        self.update_crossprods(theta)
+        Ginv = self.re_mod.update_gcov(theta, inv=True, G=self.G)
+        C = cs_add_inplace(self.ZtRZ, Ginv, self.C)
+        self.chol_fac.cholesky_inplace(C)
         inv_s2 = 1.0 / float(theta[-1])
         Rinv_v = vec * inv_s2
         rhs = np.asarray(self.Zt.dot(Rinv_v)).reshape(-1, 1)
-- 
2.43.0


From a3bc2fabdc913cb121b5fc130950c4e6cb86d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 94/99] fix: sparse likelihood eliminates the response row
 explicitly

---
 pystatsm/pylmm/lmm.py  | 15 ++++++++++++---
 pystatsm/pylmm/mlmm.py | 12 +++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index a5057a7..6e93e04 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -156,18 +156,27 @@ class LMM(object):
             lnd += self.ng[i]*np.linalg.slogdet(Sigma_i)[1]
         return lnd
 
+    @staticmethod
+    def _bordered_chol(M):
+        # the sparse factor is of a permuted matrix, so the last row of M
+        # (the response) is eliminated explicitly
+        C, c = M[:-1, :-1], M[:-1, [-1]].toarray()
+        chol_fac = cholesky(C)
+        ytPy = M[-1, -1] - np.sum(c * chol_fac.solve_A(c))
+        return ytPy, chol_fac.slogdet()[1]
+
     def loglike(self, theta, reml=True, use_sw=False, use_sparse=True, sparsity_threshold=0.4):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            ytPy, logdetC = self._bordered_chol(M.tocsc())
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index c75a82d..efaa2e6 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -274,14 +274,20 @@ class MLMM:
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
         if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the sparse factor is of a permuted matrix, so the last row of M
+            # (the response) is eliminated explicitly
+            M = M.tocsc()
+            C, c = M[:-1, :-1], M[:-1, [-1]].toarray()
+            chol_fac = cholesky(C)
+            ytPy = M[-1, -1] - np.sum(c * chol_fac.solve_A(c))
+            logdetC = chol_fac.slogdet()[1]
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = lndet_gmat(theta, self.dims, self.indices)
         logdetR = np.log(R.data).sum()
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Rinv = self.R / theta[-1]
-- 
2.43.0


From 5ebc08746ef14c696e23bab98ec9b54c045da813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 95/99] fix: multivariate ML likelihood uses every residual
 variance

---
 pystatsm/pylmm/mlmm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index efaa2e6..d6fea06 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -290,7 +290,6 @@ class MLMM:
         if reml:
             ll = logdetR + logdetC + logdetG + ytPy
         else:
-            Rinv = self.R / theta[-1]
             RZ = Rinv.dot(self.Zs)
             Q = Ginv + self.Zs.T.dot(RZ)
             _, logdetV = cholesky(Q).slogdet()
-- 
2.43.0


From fd310878ddf31d6de68370daf4a3182d67f6714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 96/99] fix: variance-correlation transform orders correlations
 column-wise

---
 pystatsm/pylmm/model_matrices.py | 6 +++---
 pystatsm/pylmm/prf.py            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index d135921..e6e7b5e 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -215,10 +215,10 @@ class VarCorrReparam:
             i, j = np.triu_indices(n_vars)
             ix = np.arange(start, start+n_params)
             start += n_params
-            gix[key] = {"v":np.diag_indices(n_vars), "r":np.tril_indices(n_vars, k=-1)}
             tix[key] = {"v":ix[i==j], "r":ix[i!=j]}
-            i, j = np.tril_indices(n_vars)
-            dix[key] = i[i!=j], j[i!=j]
+            j, i = np.triu_indices(n_vars, k=1)
+            gix[key] = {"v":np.diag_indices(n_vars), "r":(i, j)}
+            dix[key] = i, j
         self.dims = dims
         self.ix = indices
         self.gix, self.tix, self.dix = gix, tix, dix
diff --git a/pystatsm/pylmm/prf.py b/pystatsm/pylmm/prf.py
index caefada..16bbab8 100644
--- a/pystatsm/pylmm/prf.py
+++ b/pystatsm/pylmm/prf.py
@@ -24,10 +24,10 @@ class VarCorrReparam:
             i, j = np.triu_indices(n_vars)
             ix = np.arange(start, start+n_params)
             start += n_params
-            gix[key] = {"v":np.diag_indices(n_vars), "r":np.tril_indices(n_vars, k=-1)}
             tix[key] = {"v":ix[i==j], "r":ix[i!=j]}
-            i, j = np.tril_indices(n_vars)
-            dix[key] = i[i!=j], j[i!=j]
+            j, i = np.triu_indices(n_vars, k=1)
+            gix[key] = {"v":np.diag_indices(n_vars), "r":(i, j)}
+            dix[key] = i, j
         self.dims = dims
         self.ix = indices
         self.gix, self.tix, self.dix = gix, tix, dix
-- 
2.43.0


From e7cb60bf899ffcb0ad044b614982f4e0307c1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 97/99] fix: mixed model equations keep room for entries that
 are zero at the start

---
 pystatsm/pylmm/re_mod.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 6507a29..2eb15b6 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,14 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _stored_union(A, B):
+    # scipy's sum drops entries that are zero at the current values
+    A, B = A.copy(), B.copy()
+    A.data = np.ones_like(A.data)
+    B.data = np.ones_like(B.data)
+    return (A + B).tocsc()
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,7 +663,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _stored_union(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -664,6 +672,9 @@ class MMEBlocked(BaseMME):
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
         ZtZ.sort_indices()
+        # room for every entry of the covariance blocks
+        ZtZ = cs_add_inplace(ZtZ, self.G, _stored_union(ZtZ, self.G), 1.0, 0.0)
+        ZtZ.sort_indices()
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From 5631a3e43355a2d18476eae6bfee581101770463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 98/99] fix: known relationship matrices share storage with
 their inverse and any memory order

---
 pystatsm/pylmm/re_mod.py              | 11 +++++++++--
 pystatsm/utilities/python_wrappers.py |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 2eb15b6..62dfdee 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -85,17 +85,24 @@ def _stored_union(A, B):
     return (A + B).tocsc()
 
 
+def _on_stored_union(A, B):
+    # the covariance and its inverse are written into the same storage
+    P = _stored_union(A, B)
+    return (cs_add_inplace(A, B, P.copy(), 1.0, 0.0),
+            cs_add_inplace(A, B, P, 0.0, 1.0))
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
+        return _on_stored_union(a_csc, a_inv)
     A = np.asarray(a_cov)
     L = np.linalg.cholesky(A)
     A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    return _on_stored_union(sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv))
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 3b30660..ecf7ad6 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -215,6 +215,7 @@ def ds_kron(A, B, out=None):
     else:
         Cx, Ci, Cp = out
     
+    A = np.asfortranarray(A)
     cs_kron_ds_wrapper(A, B.indptr, B.indices, B.data, Bnr, Bnc, Cp, Ci, Cx)
     
     if out is None:
@@ -228,6 +229,7 @@ def ds_kron_inplace(A, B, C):
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Cx = C if isinstance(C, np.ndarray) else C.data
+    A = np.asfortranarray(A)
     cs_kron_ds_inplace_wrapper(A, B.indptr, B.indices, B.data, Bnr, Bnc, Cx)
     return C
 
@@ -288,6 +290,7 @@ def sparse_dense_kron(A, B, out=None):
     else:
         Cx, Ci, Cp = out
    
+    B = np.asfortranarray(B)
     cs_kron_sd_wrapper(Ap, Ai, Ax, Anr, Anc, B, Bnr, Bnc, Cp, Ci, Cx)
     
     if out is None:
@@ -326,5 +329,6 @@ def sparse_dense_kron_inplace(A, B, C):
     Bnr, Bnc = B.shape
     Ap, Ai, Ax = A.indptr, A.indices, A.data
     Cx = C if isinstance(C, np.ndarray) else C.data
+    B = np.asfortranarray(B)
     cs_kron_sd_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, B, Bnr, Bnc, Cx)
     return C
\ No newline at end of file
-- 
2.43.0


From 0679724c16210d58e3415109a60a45c24f8d26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 99/99] fix: per-term gradient rows are accepted by every
 covariance structure

---
 pystatsm/pylmm/re_mod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 62dfdee..6f37cc3 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -215,8 +215,8 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk_t = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
-- 
2.43.0

