From dc0f7b4c32fec426eadd8e84304be19238ca31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 01/50] fix: keep BoundsI widths as static python ints so
 results of + and & can cross jit

---
 jax_galsim/bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..c26506f 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -503,8 +503,10 @@ class BoundsI(Bounds):
         self.deltay = cast_to_float(self.deltay)
         if (self.deltax != int(self.deltax)) or (self.deltay != int(self.deltay)):
             raise TypeError("BoundsI must be initialized with integer values")
-        self.deltax = cast_to_int(self.deltax)
-        self.deltay = cast_to_int(self.deltay)
+        # the widths are always static, so make them plain ints (a concrete jax array
+        # here would turn into a tracer as soon as the bounds are used inside jit)
+        self.deltax = int(self.deltax)
+        self.deltay = int(self.deltay)
 
         if not (
             isinstance(
-- 
2.43.0


From 0cf650c4f1b04b6b731e11179ff6d55e6ddfb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 02/50] fix: hash bounds by the values that __eq__ compares

---
 jax_galsim/bounds.py | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index c26506f..bfe3028 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -319,14 +319,11 @@ class Bounds:
         return not self.__eq__(other)
 
     def __hash__(self):
+        # use the same values as __eq__ so that equal bounds (e.g. any two undefined
+        # ones) always have equal hashes
         return hash(
-            (
-                self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
-            )
+            (self.__class__.__name__,)
+            + tuple(ensure_hashable(v) for v in self._getinitargs())
         )
 
     def tree_flatten(self):
@@ -476,17 +473,6 @@ class BoundsD(Bounds):
         else:
             return "galsim.%s()" % (self.__class__.__name__)
 
-    def __hash__(self):
-        return hash(
-            (
-                self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
-            )
-        )
-
 
 @implements(_galsim.BoundsI, lax_description=BOUNDS_LAX_DESCR)
 @register_pytree_node_class
@@ -700,13 +686,4 @@ class BoundsI(Bounds):
             isinstance(other, BoundsI) and self._getinitargs() == other._getinitargs()
         )
 
-    def __hash__(self):
-        return hash(
-            (
-                self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
-            )
-        )
+    __hash__ = Bounds.__hash__
-- 
2.43.0


From c6b8f559c8c3e54a7204638900a5d2a3fed8db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 03/50] fix: give images made by transpose, flips and rotations
 an isconst flag

---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 63e4da7..4ac7a9a 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1351,6 +1351,7 @@ def _Image(array, bounds, wcs):
         array = _safe_cast(array, jnp.issubdtype(ret._dtype, jnp.integer), ret._dtype)
     ret._array = array
     ret._bounds = bounds
+    ret._is_const = False
     return ret
 
 
-- 
2.43.0


From e639af7e4ef7af46fff2e9d1183d731fc01b4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 04/50] fix: refuse in-place arithmetic and array assignment on
 immutable images

---
 jax_galsim/image.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 4ac7a9a..7c96807 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -367,6 +367,7 @@ class Image(object):
 
     @array.setter
     def array(self, other):
+        _check_not_const(self)
         # jax-galsim's rounding of float-to-int is platform dependent
         # so we explicitly round to ints if needed
         self._array = self._array.at[...].set(
@@ -1455,6 +1456,11 @@ def _safe_cast(array, target_isinteger, target_dtype):
     return array.astype(target_dtype)
 
 
+def _check_not_const(im):
+    if im.isconst:
+        raise GalSimImmutableError("Cannot modify an immutable Image", im)
+
+
 # Define a utility function to be used by the arithmetic functions below
 def check_image_consistency(im1, im2, integer=False):
     if integer and not im1.isinteger:
@@ -1478,6 +1484,7 @@ def Image_add(self, other):
 
 
 def Image_iadd(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1510,6 +1517,7 @@ def Image_rsub(self, other):
 
 
 def Image_isub(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1538,6 +1546,7 @@ def Image_mul(self, other):
 
 
 def Image_imul(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1570,6 +1579,7 @@ def Image_rdiv(self, other):
 
 
 def Image_idiv(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1605,6 +1615,7 @@ def Image_rfloordiv(self, other):
 
 
 def Image_ifloordiv(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1638,6 +1649,7 @@ def Image_rmod(self, other):
 
 
 def Image_imod(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1661,6 +1673,7 @@ def Image_pow(self, other):
 
 
 def Image_ipow(self, other):
+    _check_not_const(self)
     if not isinstance(other, int) and not isinstance(other, float):
         raise TypeError("Can only raise an image to a float or int power!")
 
@@ -1692,6 +1705,7 @@ def Image_and(self, other):
 
 
 def Image_iand(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1711,6 +1725,7 @@ def Image_xor(self, other):
 
 
 def Image_ixor(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1730,6 +1745,7 @@ def Image_or(self, other):
 
 
 def Image_ior(self, other):
+    _check_not_const(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
-- 
2.43.0


From 15e331e9b4978eab133244e26358e496126d0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 05/50] fix: refuse to add noise to an immutable image

---
 jax_galsim/noise.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 3956cf6..b87def6 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -4,7 +4,11 @@ import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.utils import cast_to_float, ensure_hashable, implements
-from jax_galsim.errors import GalSimError, GalSimIncompatibleValuesError
+from jax_galsim.errors import (
+    GalSimError,
+    GalSimImmutableError,
+    GalSimIncompatibleValuesError,
+)
 from jax_galsim.image import Image, ImageD
 from jax_galsim.random import BaseDeviate, GaussianDeviate, PoissonDeviate
 
@@ -100,6 +104,8 @@ class BaseNoise:
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image)
         return self._applyTo(image)
 
     def _applyTo(self, image):
@@ -524,6 +530,8 @@ class VariableGaussianNoise(BaseNoise):
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image)
         if image.array.shape != self.var_image.array.shape:
             raise GalSimIncompatibleValuesError(
                 "Provided image shape does not match the shape of var_image",
-- 
2.43.0


From 0101c678f90649de116d43bc762415ef67758a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 06/50] fix: leave the image's centre and wcs alone when
 drawImage fails

---
 jax_galsim/gsobject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index a5cf51b..cc4b9ba 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -769,7 +769,8 @@ The JAX-GalSim version of ``drawImage``
             image.added_flux = 0.0
             return image
 
-        # Making a view of the image lets us change the center without messing up the original.
+        # Making a copy of the image lets us change the center without messing up the original.
+        image = image.copy()
         original_center = image.center
         wcs = image.wcs
         image.setCenter(0, 0)
@@ -817,7 +818,7 @@ The JAX-GalSim version of ``drawImage``
         if save_photons:
             image_in.photons = photons
 
-        return image
+        return image_in
 
     @implements(_galsim.GSObject.drawReal)
     def drawReal(self, image, add_to_image=False):
-- 
2.43.0


From ed7ab7154453f0c9c14b669d9931072def63298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 07/50] fix: refuse to draw onto an immutable image

---
 jax_galsim/gsobject.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index cc4b9ba..74fc633 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -769,6 +769,11 @@ The JAX-GalSim version of ``drawImage``
             image.added_flux = 0.0
             return image
 
+        if image.isconst:
+            raise _galsim.GalSimImmutableError(
+                "Cannot modify an immutable Image", image
+            )
+
         # Making a copy of the image lets us change the center without messing up the original.
         image = image.copy()
         original_center = image.center
@@ -1071,6 +1076,11 @@ The JAX-GalSim version of ``drawImage``
         if setup_only:
             return image
 
+        if image.isconst:
+            raise _galsim.GalSimImmutableError(
+                "Cannot modify an immutable Image", image
+            )
+
         # For GalSim compatibility, we will attempt to update the input image
         image_in = image
         im2 = Image(bounds=image.bounds, dtype=image.dtype, scale=image.scale)
-- 
2.43.0


From 7845c71f25c89f017df0843205195d640f1df7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 08/50] fix: check the bounds passed to Image.wrap before
 wrapping

---
 jax_galsim/image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 7c96807..c85d7a8 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -755,8 +755,6 @@ class Image(object):
 
             return bnds
 
-        # Get this at the start to check for invalid bounds and raise the exception before
-        # possibly writing data past the edge of the image.
         if not hermitian:
             return self._wrap(bounds, False, False, None)
         elif hermitian == "x":
@@ -784,6 +782,10 @@ class Image(object):
 
     @implements(_galsim.Image._wrap)
     def _wrap(self, bounds, hermx, hermy, hermitian_wrap_size):
+        # Get this at the start to check for invalid bounds and raise the exception before
+        # possibly writing data past the edge of the image.
+        self.subImage(bounds)
+
         if not hermx and not hermy:
             from jax_galsim.core.wrap_image import wrap_nonhermitian
 
-- 
2.43.0


From 53a417ea80f2e34e00747d0dcfb10ceb0871cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 09/50] fix: make Image.replaceNegative usable under jit

---
 jax_galsim/image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index c85d7a8..1613b9c 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1176,7 +1176,11 @@ class Image(object):
     def replaceNegative(self, replace_value=0):
         if self.isconst:
             raise GalSimImmutableError("Cannot modify an immutable Image", self)
-        self._array = self.array.at[self.array < 0].set(replace_value)
+        self._array = jnp.where(
+            self.array < 0,
+            jnp.asarray(replace_value).astype(self.array.dtype),
+            self.array,
+        )
 
     def __eq__(self, other):
         # Note that numpy.array_equal can return True if the dtypes of the two arrays involved are
-- 
2.43.0


From a4528816bc7c1666f67e60ae3f68dc966410cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 10/50] fix: let BinomialDeviate cross jit and vmap by keeping
 its number of trials static

---
 jax_galsim/random.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 2cf2db2..0ffe283 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -448,6 +448,20 @@ class BinomialDeviate(BaseDeviate):
         # argument order is scale, concentration
         return (_key, p), jnp.sum(jrandom.bernoulli(subkey, p))
 
+    def tree_flatten(self):
+        """This function flattens the PRNG into a list of children
+        nodes that will be traced by JAX and auxiliary static data."""
+        # Define the children nodes of the PyTree that need tracing
+        children = (self._state, {"p": self._params["p"]})
+        # N sets the shape of the arrays used to draw a value, so it has to be static
+        aux_data = {"N": self._params["N"]}
+        return (children, aux_data)
+
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        return cls(children[0], **aux_data, **(children[1]))
+
     def __repr__(self):
         return "galsim.BinomialDeviate(seed=%r, N=%r, p=%r)" % (
             ensure_hashable(jrandom.key_data(self._key)),
-- 
2.43.0


From c09a89aaa5ff11eb93a41edafdaacf94a2345f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 11/50] fix: keep the sign of the gamma function in the
 small-radius Spergel expansion

---
 jax_galsim/spergel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 200d197..ca3f314 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -1,6 +1,7 @@
 import galsim as _galsim
 import jax
 import jax.numpy as jnp
+import jax.scipy.special
 from jax.tree_util import Partial as partial
 from jax.tree_util import register_pytree_node_class
 
@@ -15,7 +16,7 @@ from jax_galsim.random import UniformDeviate
 def gamma(x):
     """Gamma(x)"""
     x = x * 1.0
-    return jnp.exp(jax.lax.lgamma(x))
+    return jax.scipy.special.gamma(x)
 
 
 @jax.jit
-- 
2.43.0


From d727c9b876d4c7659909439226aeb3ebd6c2a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 12/50] fix: answer Convolution.is_analytic_k and
 is_axisymmetric under jit

---
 jax_galsim/convolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/convolve.py b/jax_galsim/convolve.py
index e6df076..248078f 100644
--- a/jax_galsim/convolve.py
+++ b/jax_galsim/convolve.py
@@ -220,7 +220,7 @@ class Convolution(GSObject):
     @property
     def _is_axisymmetric(self):
         axi_list = [obj.is_axisymmetric for obj in self.obj_list]
-        return jnp.all(jnp.array(axi_list)).item()
+        return all(axi_list)
 
     @property
     def _is_analytic_x(self):
@@ -228,14 +228,14 @@ class Convolution(GSObject):
             return self.obj_list[0].is_analytic_x
         elif self.real_space and len(self.obj_list) == 2:
             ax_list = [obj.is_analytic_x for obj in self.obj_list]
-            return jnp.all(jnp.arry(ax_list)).item()  # return a bool
+            return all(ax_list)
         else:
             return False
 
     @property
     def _is_analytic_k(self):
         ak_list = [obj.is_analytic_k for obj in self.obj_list]
-        return jnp.all(jnp.array(ak_list)).item()  # return a bool
+        return all(ak_list)
 
     @property
     def _centroid(self):
-- 
2.43.0


From e7f34075373e7dd97cdecaa700c0451fe9ba6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 13/50] fix: give Exponential surface brightness finite
 gradients at the centre

---
 jax_galsim/exponential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/exponential.py b/jax_galsim/exponential.py
index 1d47254..78900af 100644
--- a/jax_galsim/exponential.py
+++ b/jax_galsim/exponential.py
@@ -6,6 +6,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -128,7 +129,7 @@ class Exponential(GSObject):
         return self._norm
 
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2)
+        r = safe_sqrt(pos.x**2 + pos.y**2)
         return self._norm * jnp.exp(-r * self._inv_r0)
 
     def _kValue(self, kpos):
-- 
2.43.0


From 176effb3f93f7de254ccf6a8b1db35eb061091e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 14/50] fix: give Spergel surface brightness finite gradients
 at the centre

---
 jax_galsim/spergel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index ca3f314..56ffc05 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -7,6 +7,7 @@ from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.bessel import kv
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import bisect_for_root, ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -413,8 +414,12 @@ class Spergel(GSObject):
 
     @jax.jit
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2) * self._inv_r0
-        res = jnp.where(r == 0, self._xnorm0, fz_nu(r, jax.lax.stop_gradient(self.nu)))
+        r = safe_sqrt(pos.x**2 + pos.y**2) * self._inv_r0
+        # keep the gradient at r == 0 finite
+        r_msk = jnp.where(r == 0, 1.0, r)
+        res = jnp.where(
+            r == 0, self._xnorm0, fz_nu(r_msk, jax.lax.stop_gradient(self.nu))
+        )
         return self._xnorm * res
 
     @jax.jit
-- 
2.43.0


From f6b37e0fafc19c6adf8eb399329bb1023d127931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 15/50] fix: postel projection is finite for positions next to
 the centre

---
 jax_galsim/celestial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 5645eda..534ba5d 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -488,7 +488,8 @@ class CelestialCoord(object):
         elif projection[0] == "l":
             k = jnp.sqrt(2.0 / (1.0 + cosc))
         else:
-            c = jnp.arccos(cosc)
+            # rounding can push cosc of nearby points just above 1
+            c = jnp.arccos(jnp.clip(cosc, -1.0, 1.0))
             # k = c / np.sin(c)
             # np.sinc is defined as sin(pi x) / (pi x)
             # So need to divide by pi first.
-- 
2.43.0


From aad9ef08983783e5cc1c0e4fabb55c38c21dcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 16/50] fix: area of spherical triangles larger than pi
 steradians

---
 jax_galsim/celestial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 534ba5d..4c8264b 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -417,8 +417,10 @@ class CelestialCoord(object):
         dasq = self._raw_dsq(aux, auxc2)
         dbsq = self._raw_dsq(aux, auxc3)
 
-        tanEo2 = F / (0.25 * (4.0 - dasq) * (4.0 - dbsq) + G)
-        E = 2.0 * jnp.arctan(jnp.abs(tanEo2))
+        # the denominator is negative for triangles larger than a hemisphere's half (E > pi)
+        E = 2.0 * jnp.arctan2(
+            jnp.abs(F), 0.25 * (4.0 - dasq) * (4.0 - dbsq) + G
+        )
         return E
 
     _valid_projections = [None, "gnomonic", "stereographic", "lambert", "postel"]
-- 
2.43.0


From 731170ca3186ddaa218c8b436192731f7a1360c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 17/50] fix: TPV headers whose highest term is the first of its
 order keep that term

---
 jax_galsim/fitswcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 0165486..605c238 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -331,8 +331,8 @@ class GSFitsWCS(CelestialWCS):
         ]
 
         maxk = max(np.nonzero(pv1)[0][-1], np.nonzero(pv2)[0][-1])
-        # maxk = (order+1) * (order+2) / 2 - 1
-        order = int(np.floor(np.sqrt(2 * (maxk + 1)))) - 1
+        # maxk <= (order+1) * (order+2) / 2 - 1
+        order = int(np.ceil((np.sqrt(8 * maxk + 9) - 3) / 2))
         self.pv = np.zeros((2, order + 1, order + 1))
 
         # Another strange thing is that the two matrices are defined in the opposite order
-- 
2.43.0


From f83b77e197926ed4dc5255cd3500fd5026ec0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 18/50] fix: TanWCS honours the world origin of its affine
 transformation

---
 jax_galsim/fitswcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 605c238..d90d9ce 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -895,9 +895,10 @@ def TanWCS(affine, world_origin, units=arcsec):
     # (0,0) = CD * (x0',y0') - CD * (x0,y0) + (u0,v0)
     # CD (x0',y0') = CD (x0,y0) - (u0,v0)
     # (x0',y0') = (x0,y0) - CD^-1 (u0,v0)
+    # (with the sign of u0 switched like the first row of CD)
     uv = jnp.array(
         [
-            affine.world_origin.x * units / degrees,
+            -affine.world_origin.x * units / degrees,
             affine.world_origin.y * units / degrees,
         ]
     )
-- 
2.43.0


From e114b164a4270945b45e82c33c3797dc85dba3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 19/50] fix: Shear accepts any complex argument, also a
 real-valued or traced one

---
 jax_galsim/shear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/shear.py b/jax_galsim/shear.py
index b066389..43eb80c 100644
--- a/jax_galsim/shear.py
+++ b/jax_galsim/shear.py
@@ -37,7 +37,7 @@ class Shear(object):
         # Unnamed arg must be a complex shear
         if len(args) == 1:
             self._g = args[0]
-            if not (jnp.all(jnp.iscomplex(self._g)) or isinstance(self._g, complex)):
+            if not jnp.iscomplexobj(self._g):
                 raise TypeError(
                     "Non-keyword argument to Shear must be complex g1 + 1j * g2"
                 )
-- 
2.43.0


From 62f26925036f21e1e9512a74e00aac66312c4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 20/50] fix: write the wcs of an image whose origin is not
 (1,1) to a header

---
 jax_galsim/wcs.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index ea3a9db..75fafd3 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -196,6 +196,38 @@ class BaseWCS(_galsim.BaseWCS):
         depr("withOrigin", 2.3, "shiftOrigin")
         return self.shiftOrigin(origin, world_origin, color)
 
+    @implements(_galsim.BaseWCS.writeToFitsHeader)
+    def writeToFitsHeader(self, header, bounds):
+        # First write the XMIN, YMIN values
+        xmin = _cast_to_static_numeric_scalar(bounds.xmin)
+        ymin = _cast_to_static_numeric_scalar(bounds.ymin)
+        header["GS_XMIN"] = (xmin, "GalSim image minimum x coordinate")
+        header["GS_YMIN"] = (ymin, "GalSim image minimum y coordinate")
+
+        if xmin != 1 or ymin != 1:
+            # ds9 always assumes the image has an origin at (1,1), so we always write the
+            # WCS to the file with this convention.  We'll convert back when we read it
+            # in if necessary.
+            delta = PositionI(1 - xmin, 1 - ymin)
+            bounds = bounds.shift(delta)
+            wcs = self.shiftOrigin(delta)
+        else:
+            wcs = self
+
+        wcs._writeHeader(header, bounds)
+
+        if hasattr(self, "header"):
+            # Store the items that are in self.header in the header if they weren't already put
+            # there by the call to wcs._writeHeader() call.  (We don't want to overwrite the WCS.)
+            for key in self.header:
+                if (
+                    key not in header
+                    and key.strip() != ""
+                    and key.strip() != "COMMENT"
+                    and key.strip() != "HISTORY"
+                ):
+                    header[key] = self.header[key]
+
     # A lot of classes will need these checks, so consolidate them here
     def _set_origin(self, origin, world_origin=None):
         if origin is None:
-- 
2.43.0


From a6f9d6bf31a0cac0933569e946bf41755d92d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 21/50] fix: read ShearWCS and OffsetShearWCS back from a
 header

---
 jax_galsim/wcs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index 75fafd3..cdb413f 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -1102,6 +1102,13 @@ class ShearWCS(LocalWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        return ShearWCS(scale, Shear(g1=g1, g2=g2))
+
     @implements(_galsim.wcs.ShearWCS.copy)
     def copy(self):
         return ShearWCS(self._scale, self._shear)
@@ -1502,6 +1509,19 @@ class OffsetShearWCS(UniformWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        x0 = header["GS_X0"]
+        y0 = header["GS_Y0"]
+        u0 = header["GS_U0"]
+        v0 = header["GS_V0"]
+        return OffsetShearWCS(
+            scale, Shear(g1=g1, g2=g2), PositionD(x0, y0), PositionD(u0, v0)
+        )
+
     @implements(_galsim.wcs.OffsetShearWCS.copy)
     def copy(self):
         return OffsetShearWCS(self.scale, self.shear, self.origin, self.world_origin)
-- 
2.43.0


From 3314f7c8331daf00e3a6fe1d511bc84aa6c3fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 22/50] fix: hash and repr of numpy scalars agree with those of
 equal python and jax numbers

---
 jax_galsim/core/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/core/utils.py b/jax_galsim/core/utils.py
index 839d065..25cb90f 100644
--- a/jax_galsim/core/utils.py
+++ b/jax_galsim/core/utils.py
@@ -145,12 +145,12 @@ def _recurse_list_to_tuple(x):
 
 
 def ensure_hashable(v):
-    """Ensure that the input is hashable. If it is a jax array,
+    """Ensure that the input is hashable. If it is a jax or numpy array,
     convert it to a possibly nested tuple or python scalar.
 
     All NaNs are converted to numpy.nan to get consistent hashing.
     """
-    if isinstance(v, jax.Array):
+    if isinstance(v, (jax.Array, np.ndarray, np.generic)):
         try:
             if len(v.shape) > 0:
                 return _recurse_list_to_tuple(v.tolist())
-- 
2.43.0


From 198dc79b16b10c21757762dc39186c8b7f5c3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 23/50] fix: drawReal rounds the finished image once and keeps
 its dtype

---
 jax_galsim/core/draw.py | 7 -------
 jax_galsim/gsobject.py  | 1 +
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 181bf46..edf5bee 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -36,13 +36,6 @@ def draw_by_xValue(
     # Apply the flux scaling
     im *= flux_scaling
 
-    # jax-galsim's rounding of float-to-int is platform dependent
-    # so we explicitly round to ints if needed
-    if jnp.issubdtype(im.dtype, jnp.floating) and jnp.issubdtype(
-        image.dtype, jnp.integer
-    ):
-        im = jnp.around(im)
-
     # Return an image
     return Image(array=im, bounds=image.bounds, wcs=image.wcs, _check_bounds=False)
 
diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 74fc633..ce1135b 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -840,6 +840,7 @@ The JAX-GalSim version of ``drawImage``
             # jax-galsim's rounding of float-to-int is platform dependent
             # so we explicitly round to ints if needed
             temp.array = jnp.around(temp.array)
+        temp._array = temp._array.astype(image.dtype)
 
         if add_to_image:
             image._array = image._array.at[...].add(temp._array)
-- 
2.43.0


From ccdea03f0861521f91b8ff73306b1c2822a16533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 24/50] fix: a refused drawing leaves the wcs of the image
 alone

---
 jax_galsim/gsobject.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index ce1135b..80cab5a 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -541,12 +541,8 @@ class GSObject:
                 )
             if not isinstance(wcs, BaseWCS):
                 raise TypeError("wcs must be a BaseWCS instance")
-            if image is not None:
-                image.wcs = None
         elif scale is not None:
             wcs = PixelScale(scale)
-            if image is not None:
-                image.wcs = None
         elif image is not None and image.wcs is not None:
             wcs = image.wcs
 
@@ -763,9 +759,9 @@ The JAX-GalSim version of ``drawImage``
         image_in = (
             image  # For compatibility with normal galsim, we update image_in below.
         )
-        image.wcs = wcs
 
         if setup_only:
+            image.wcs = wcs
             image.added_flux = 0.0
             return image
 
@@ -777,7 +773,6 @@ The JAX-GalSim version of ``drawImage``
         # Making a copy of the image lets us change the center without messing up the original.
         image = image.copy()
         original_center = image.center
-        wcs = image.wcs
         image.setCenter(0, 0)
         image.wcs = PixelScale(1.0)
 
@@ -1067,6 +1062,11 @@ The JAX-GalSim version of ``drawImage``
                 add_to_image=add_to_image,
             )
 
+        if image.isconst and not setup_only:
+            raise _galsim.GalSimImmutableError(
+                "Cannot modify an immutable Image", image
+            )
+
         # Set the center to 0,0 if appropriate
         if recenter:
             image._shift(-image.center)
@@ -1077,11 +1077,6 @@ The JAX-GalSim version of ``drawImage``
         if setup_only:
             return image
 
-        if image.isconst:
-            raise _galsim.GalSimImmutableError(
-                "Cannot modify an immutable Image", image
-            )
-
         # For GalSim compatibility, we will attempt to update the input image
         image_in = image
         im2 = Image(bounds=image.bounds, dtype=image.dtype, scale=image.scale)
-- 
2.43.0


From 08158cb10d26d2e0232cd935c3b5baa7bbf4191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 25/50] fix: number of photons is the rounded size of the flux,
 negative fluxes included

---
 jax_galsim/core/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index edf5bee..a8efb65 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -469,4 +469,5 @@ def _calculate_n_photons_flux_nonzero(
         max_sb,
     )
 
-    return jnp.ceil(mod_flux).astype(int), g, rng
+    # Make n_photons an integer.
+    return jnp.floor(jnp.abs(mod_flux) + 0.5).astype(int), g, rng
-- 
2.43.0


From 49e7ebe45900a8bb14da657c696482312631a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 26/50] fix: photon_ops may be a tuple when drawing with
 photons

---
 jax_galsim/gsobject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 80cab5a..b1778bd 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1317,8 +1317,9 @@ The JAX-GalSim version of ``drawPhot``
             rng._state = _dfret.rng._state
         else:
             rng = _dfret.rng
-        for i in range(len(photon_ops)):
-            photon_ops[i] = _dfret.photon_ops[i]
+        if isinstance(photon_ops, list):
+            for i in range(len(photon_ops)):
+                photon_ops[i] = _dfret.photon_ops[i]
 
         image._array = _dfret.image._array
 
-- 
2.43.0


From 6fcf73c631201523b604c38d4f494ebc9ad32390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 27/50] fix: drawKImage keeps the dtype of the image it draws
 into

---
 jax_galsim/gsobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index b1778bd..1c43a3e 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1083,7 +1083,7 @@ The JAX-GalSim version of ``drawImage``
         im2 = self._drawKImage(im2)
 
         if not add_to_image:
-            image._array = im2._array
+            image._array = im2._array.astype(image.dtype)
         else:
             image._array = image._array.at[...].add(im2._array)
 
-- 
2.43.0


From d19144988e736a2e89a332f7ab8fb6c23e558d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 28/50] fix: PhotonArray.fromArrays makes jax arrays of numpy
 input

---
 jax_galsim/photon_array.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index e97ee2b..630d688 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -188,37 +188,37 @@ class PhotonArray:
 
         ret = cls.__new__(cls)
         ret._Ntot = _JAX_GALSIM_PHOTON_ARRAY_SIZE or x.shape[0]
-        ret._x = x.copy()
-        ret._y = y.copy()
-        ret._flux = flux.copy()
+        ret._x = jnp.array(x, dtype=float)
+        ret._y = jnp.array(y, dtype=float)
+        ret._flux = jnp.array(flux, dtype=float)
         ret._nokeep = jnp.arange(ret._Ntot) >= x.shape[0]
         ret._dxdz = (
-            dxdz.copy()
+            jnp.array(dxdz, dtype=float)
             if dxdz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._dydz = (
-            dydz.copy()
+            jnp.array(dydz, dtype=float)
             if dydz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._wave = (
-            wavelength.copy()
+            jnp.array(wavelength, dtype=float)
             if wavelength is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_u = (
-            pupil_u.copy()
+            jnp.array(pupil_u, dtype=float)
             if pupil_u is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_v = (
-            pupil_v.copy()
+            jnp.array(pupil_v, dtype=float)
             if pupil_v is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._time = (
-            time.copy()
+            jnp.array(time, dtype=float)
             if time is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
-- 
2.43.0


From 4eb543c65dbc454a923c8ecb845778af620f36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 29/50] fix: PhotonArray.read restores the fluxes of an array
 with masked photons

---
 jax_galsim/photon_array.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 630d688..ec7a347 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -976,9 +976,8 @@ class PhotonArray:
             x=jnp.array(cast_numpy_array_to_native_byte_order(data["x"])),
             y=jnp.array(cast_numpy_array_to_native_byte_order(data["y"])),
             flux=jnp.array(cast_numpy_array_to_native_byte_order(data["flux"])),
-        )
-        photons._nokeep = jnp.array(
-            cast_numpy_array_to_native_byte_order(data["_nokeep"])
+            # given here since the stored fluxes depend on it
+            _nokeep=jnp.array(cast_numpy_array_to_native_byte_order(data["_nokeep"])),
         )
         if "dxdz" in names:
             photons.dxdz = jnp.array(
-- 
2.43.0


From 8c831057b812a300575c98ca69ef70e347afed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 30/50] fix: PhotonArray keeps the mask given to it as a jax
 array

---
 jax_galsim/photon_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index ec7a347..4509bd5 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -103,7 +103,7 @@ class PhotonArray:
             )
 
         if _nokeep is not None:
-            self._nokeep = _nokeep
+            self._nokeep = jnp.array(_nokeep, dtype=bool)
         else:
             self._nokeep = jnp.arange(self._Ntot) >= N
 
-- 
2.43.0


From 7e73c5e41c0d78859e2655cdde4935814a402bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 31/50] fix: Spergel photons follow the profile also for nu <=
 0

---
 jax_galsim/spergel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 56ffc05..cb4a63e 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -492,11 +492,11 @@ class Spergel(GSObject):
         a = knur - shoot_rmin * b
 
         def cumulflux(z, a, b, zmin, nu, norm=1.0):
-            flux_min = a / 3.0 * zmin * zmin * zmin + b / 2.0 * zmin * zmin
+            flux_min = a / 2.0 * zmin * zmin + b / 3.0 * zmin * zmin * zmin
             c1 = fz_nup1(zmin, nu)
             res = jnp.where(
                 z <= zmin,
-                a / 3.0 * z * z * z + b / 2.0 * z * z,
+                a / 2.0 * z * z + b / 3.0 * z * z * z,
                 flux_min + c1 - fz_nup1(z, nu),
             )
             return res / norm
-- 
2.43.0


From f5ad6b70eb682cab786d53c5893be7b834268e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 32/50] fix: GSObject.shoot with a fixed photon array size
 keeps n_photons photons of the full flux

Profiles draw the full array of photons (the size of the array), so with
fixed_photon_array_size larger than n_photons each photon was too faint by
n_photons / size (makePhot, shoot, drawImage with a smaller maxN), and a Sum
kept every photon of the array instead of n_photons.
---
 jax_galsim/gsobject.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 1c43a3e..bf4a5e2 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1338,7 +1338,15 @@ The JAX-GalSim version of ``drawPhot``
 
         if photons.x.shape[0] > 0:
             _rng = BaseDeviate(rng)
+            # profiles always draw the full number of photons in the array
+            # so any that are not kept (see fixed_photon_array_size) are
+            # dropped afterwards
+            fixed_size = pa._JAX_GALSIM_PHOTON_ARRAY_SIZE is not None
+            if fixed_size:
+                photons._nokeep = jnp.zeros_like(photons._nokeep)
             self._shoot(photons, _rng)
+            if fixed_size:
+                photons._num_keep = n_photons
             if rng is not None:
                 rng._state = _rng._state
 
-- 
2.43.0


From 7585642496c12f5c623990c3b51673275d6afb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 33/50] fix: a profile of zero flux drawn with n_photons and
 poisson_flux=True has no NaN photons

---
 jax_galsim/core/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index a8efb65..6904037 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -342,8 +342,9 @@ def _sample_zero(n_photons_data):
 
 @jax.jit
 def _sample_nonzero(n_photons_data):
+    # a flux of zero stays at zero
     g, _rng = jax.lax.cond(
-        n_photons_data.poisson_flux,
+        jnp.logical_and(n_photons_data.poisson_flux, n_photons_data.flux != 0.0),
         lambda n_photons_data: _sample_poisson_flux(
             n_photons_data.flux, n_photons_data.flux_per_photon, n_photons_data.rng
         ),
-- 
2.43.0


From 11fb2ba902a105af00b21e4e660a6acb6a107d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 34/50] fix: PhotonArray.flux is zero, not NaN, when no photons
 are kept

---
 jax_galsim/photon_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 4509bd5..5818fd9 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -316,7 +316,8 @@ class PhotonArray:
             lambda flux, ratio: flux,
             lambda flux, ratio: flux * ratio,
             jnp.where(self._nokeep, 0.0, self._flux),
-            self._Ntot / self._num_keep,
+            # with no photons kept, all the fluxes are zero
+            self._Ntot / jnp.maximum(self._num_keep, 1),
         )
 
     @flux.setter
-- 
2.43.0


From 21fdb3a15beb2930ed5fdf315d9d07946c10ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 35/50] fix: InterpolatedImage with the Nearest interpolant
 looks at the pixel above a point as well as the one below

The value was zero for every point closer to the pixel to its right or above it.
---
 jax_galsim/interpolatedimage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 9564bd3..cef2ce5 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1017,7 +1017,8 @@ def _draw_with_interpolant_xval(x, y, xmin, ymin, zp, interp):
     yp = yi + ymin
     ny = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    # rounded up since the nearest pixel can be either neighbor
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wx, xind = _interp_weight_1d_xval(
@@ -1124,7 +1125,8 @@ def _draw_with_interpolant_kval(kx, ky, kxmin, kymin, zp, interp):
     kyp = kyi + kymin
     nky = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    # rounded up since the nearest pixel can be either neighbor
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wkx, kxind = _interp_weight_1d_kval(
-- 
2.43.0


From 1253a429a8f5a51934ec524b567a5db0b6758e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 36/50] fix: the centroid of an InterpolatedImage accounts for
 its offset (and for the true center of an even-sized image)

---
 jax_galsim/interpolatedimage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index cef2ce5..590e7b3 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -581,7 +581,8 @@ class _InterpolatedImageImpl(GSObject):
         tot = jnp.sum(self._pad_image.array)
         xpos = jnp.sum(x * self._pad_image.array) / tot
         ypos = jnp.sum(y * self._pad_image.array) / tot
-        return PositionD(xpos, ypos)
+        # the profile at x is the image at x + offset
+        return PositionD(xpos, ypos) - self._offset
 
     @property
     def _max_sb(self):
-- 
2.43.0


From c0a47ed0447b29fabf698b1042229b7495e52a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 37/50] fix: stepk of an elongated InterpolatedImage

The search for the size containing the flux stopped at the shorter side of the
image, and when it failed there the size was taken to be half a pixel.
---
 jax_galsim/interpolatedimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 590e7b3..7935bff 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1184,7 +1184,7 @@ def _flux_frac(a, x, y, cenx, ceny):
     dx = jnp.reshape(dx, (a.shape[0], a.shape[1], 1))
     dy = y - ceny
     dy = jnp.reshape(dy, (a.shape[0], a.shape[1], 1))
-    d = jnp.arange(min(a.shape[0], a.shape[1]))
+    d = jnp.arange(max(a.shape[0], a.shape[1]))
     d = jnp.reshape(d, (1, 1, -1))
     msk = (jnp.abs(dx) <= d) & (jnp.abs(dy) <= d)
     res = jnp.sum(
@@ -1205,7 +1205,7 @@ def _calculate_size_containing_flux(image, thresh):
     fluxes = _flux_frac(image.array, x, y, cenx, ceny)
     # we add 1 since the flux fraction computation above starts at
     # one pixel and jnp.arange starts at zero
-    d = jnp.arange(min(image.array.shape[0], image.array.shape[1])) + 1.0
+    d = jnp.arange(max(image.array.shape[0], image.array.shape[1])) + 1.0
     p = jnp.sign(thresh)
     msk = (p * fluxes) >= (p * thresh)
     return (
-- 
2.43.0


From b8c3f921c25fa6e568e32173d08bd58ed1ee6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 38/50] fix: InterpolatedImage keeps a copy of the image, so
 that later edits do not change the profile and const images are accepted

---
 jax_galsim/interpolatedimage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 7935bff..8bd1488 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -126,6 +126,9 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                 "Interpolated images must use a float-type image.", image.dtype
             )
 
+        # keep a copy so that later changes to the input image do not change the profile
+        image = image.copy()
+
         self._jax_children = (
             image,
             dict(
-- 
2.43.0


From aa071ee3d07b55acbf37f97907d745f8ba2781e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 39/50] fix: calculate_stepk given as a number no longer
 returns a radius of half a pixel when the image is larger

---
 jax_galsim/interpolatedimage.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 8bd1488..34faec7 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1211,16 +1211,14 @@ def _calculate_size_containing_flux(image, thresh):
     d = jnp.arange(max(image.array.shape[0], image.array.shape[1])) + 1.0
     p = jnp.sign(thresh)
     msk = (p * fluxes) >= (p * thresh)
-    return (
-        jnp.argmin(
-            jnp.where(
-                msk,
-                d,
-                jnp.inf,
-            )
-        )
-        + 0.5
+    # if no square holds enough flux (e.g. the image is only part of the object) the
+    # size is that of the whole image
+    size = jnp.where(
+        jnp.any(msk),
+        jnp.argmin(jnp.where(msk, d, jnp.inf)),
+        max(image.array.shape) // 2,
     )
+    return size + 0.5
 
 
 # this version doe snot match galsim's maxk operation exactly,
-- 
2.43.0


From 092872ddd898771972d4251530bef77a67d24044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 40/50] fix: an InterpolatedImage of zero total flux has
 values, not NaN

---
 jax_galsim/interpolatedimage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 34faec7..002ea99 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -594,18 +594,18 @@ class _InterpolatedImageImpl(GSObject):
     @property
     def _flux_ratio(self):
         if self._jax_children[1]["flux"] is None:
-            flux = self._image_flux
+            # no division by the image flux here, since it can be zero
             if self._jax_aux_data["normalization"].lower() in (
                 "surface brightness",
                 "sb",
             ):
-                flux *= self._wcs.pixelArea()
-        else:
-            flux = self._jax_children[1]["flux"]
+                return self._wcs.pixelArea()
+            else:
+                return 1.0
 
         # If the user specified a flux, then set the flux ratio for the transform that wraps
         # this class
-        return flux / self._image_flux
+        return self._jax_children[1]["flux"] / self._image_flux
 
     @property
     def _image_flux(self):
-- 
2.43.0


From 15ff596d67714dfca534cb9893d134b917b945b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 41/50] fix: Interpolant.unit_integrals honours max_len for all
 interpolants

---
 jax_galsim/interpolant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/interpolant.py b/jax_galsim/interpolant.py
index 1b48939..2a72087 100644
--- a/jax_galsim/interpolant.py
+++ b/jax_galsim/interpolant.py
@@ -164,7 +164,7 @@ class Interpolant:
 
     @implements(_galsim.interpolant.Interpolant.unit_integrals)
     def unit_integrals(self, max_len=None):
-        return self._unit_integrals
+        return self._unit_integrals[:max_len]
 
     def tree_flatten(self):
         """This function flattens the Interpolant into a list of children
-- 
2.43.0


From 905a65de90a84bded0d9e4206ee578cbbbc17901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 42/50] fix: CCDNoise advances its random stream, so that its
 noise is not repeated and read noise is independent of the shot noise

---
 jax_galsim/noise.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index b87def6..e7a6b04 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -341,25 +341,29 @@ class CCDNoise(BaseNoise):
         )
 
         # First add the poisson noise from the signal + sky:
-        noise_array = jax.lax.cond(
+        # The deviates used inside of lax.cond are copies, so the stream has to be advanced here.
+        noise_array, pd = jax.lax.cond(
             self.gain > 0.0,
             lambda pd, na, gain: (
-                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
+                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain,
+                pd,
             ),
-            lambda pd, na, gain: na,
+            lambda pd, na, gain: (na, pd),
             self._pd,
             noise_array,
             self.gain,
         )
+        self.rng._state.key = pd._state.key
 
         # Now add the read noise:
-        noise_array = jax.lax.cond(
+        noise_array, gd = jax.lax.cond(
             self.read_noise > 0.0,
-            lambda na, gd: na + gd.generate(na),
-            lambda na, gd: na,
+            lambda na, gd: (na + gd.generate(na), gd),
+            lambda na, gd: (na, gd),
             noise_array,
             self._gd,
         )
+        self.rng._state.key = gd._state.key
 
         noise_array = jax.lax.cond(
             frac_sky != 0.0,
-- 
2.43.0


From aef8aa60c988eecae6bd07e07d8714f84dfb249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 43/50] fix: drawing photons advances the generator it was
 given together with the generators linked to it

---
 jax_galsim/core/draw.py | 8 ++++----
 jax_galsim/gsobject.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 6904037..af54702 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -309,7 +309,7 @@ def calculate_n_photons(
         n_photons_data,
     )
     if rng is not None:
-        rng._state = _rng._state
+        rng._state.key = _rng._state.key
     return _n_photons, g, rng
 
 
@@ -335,7 +335,7 @@ def _sample_zero(n_photons_data):
         n_photons_data.rng,
     )
     if n_photons_data.rng is not None:
-        n_photons_data.rng._state = _rng._state
+        n_photons_data.rng._state.key = _rng._state.key
 
     return _n_photons, _g, n_photons_data.rng
 
@@ -352,7 +352,7 @@ def _sample_nonzero(n_photons_data):
         n_photons_data,
     )
     if n_photons_data.rng is not None:
-        n_photons_data.rng._state = _rng._state
+        n_photons_data.rng._state.key = _rng._state.key
     vals = jnp.int_(n_photons_data.n_photons + 0.5), g, n_photons_data.rng
     return vals
 
@@ -456,7 +456,7 @@ def _calculate_n_photons_flux_nonzero(
         g,
     )
     if rng is not None:
-        rng._state = _rng._state
+        rng._state.key = _rng._state.key
 
     mod_flux, g = jax.lax.cond(
         max_extra_noise > 0.0,
diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index bf4a5e2..e57f583 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1116,7 +1116,7 @@ The JAX-GalSim version of ``drawImage``
             poisson_flux=poisson_flux,
         )
         if rng is not None:
-            rng._state = _rng._state
+            rng._state.key = _rng._state.key
         return n_photons, g
 
     @implements(
@@ -1314,7 +1314,7 @@ The JAX-GalSim version of ``drawPhot``
                 orig_center=orig_center,
             )
         if rng is not None:
-            rng._state = _dfret.rng._state
+            rng._state.key = _dfret.rng._state.key
         else:
             rng = _dfret.rng
         if isinstance(photon_ops, list):
@@ -1348,7 +1348,7 @@ The JAX-GalSim version of ``drawPhot``
             if fixed_size:
                 photons._num_keep = n_photons
             if rng is not None:
-                rng._state = _rng._state
+                rng._state.key = _rng._state.key
 
         return photons
 
-- 
2.43.0


From d959598f1b1d1262565023afa7f3d86ed9ca0d16 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 44/50] fix: Poisson and CCD noise can be applied under jit

---
 jax_galsim/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index e7a6b04..c76b252 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -214,7 +214,7 @@ class PoissonNoise(BaseNoise):
         # right if the sky has a fractional part.  So only subtract off the integer part of the
         # sky at the end.  For float images, you get the same answer either way, so it doesn't
         # matter.
-        frac_sky = self.sky_level - image.dtype(self.sky_level)
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
@@ -329,7 +329,7 @@ class CCDNoise(BaseNoise):
         noise_array = image.array.copy().astype(float)
 
         # cf. PoissonNoise._applyTo function
-        frac_sky = self.sky_level - image.dtype(self.sky_level)  # 0 if dtype = float
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(image.dtype)  # 0 if dtype = float
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
-- 
2.43.0


From 26928ecc40d69edb01f3cd873e0383f96449f3ce Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 45/50] fix: DeviateNoise can be rebuilt from its leaves

---
 jax_galsim/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index c76b252..55dfe38 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -511,7 +511,7 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        return cls(children[0])
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
-- 
2.43.0


From 75453596c57b9365ea341c2809d69974eb107748 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 46/50] fix: the repr of Poisson and CCD noise holds plain
 numbers, so that equal noises compare equal

---
 jax_galsim/noise.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 55dfe38..8c99d38 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -266,7 +266,10 @@ class PoissonNoise(BaseNoise):
         return PoissonNoise(rng=rng, sky_level=self.sky_level)
 
     def __repr__(self):
-        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (self.rng, self.sky_level)
+        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (
+            self.rng,
+            ensure_hashable(self.sky_level),
+        )
 
     def __str__(self):
         return "galsim.PoissonNoise(sky_level=%s)" % (self.sky_level)
@@ -427,16 +430,16 @@ class CCDNoise(BaseNoise):
     def __repr__(self):
         return "galsim.CCDNoise(rng=%r, sky_level=%r, gain=%r, read_noise=%r)" % (
             self.rng,
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def __str__(self):
         return "galsim.CCDNoise(sky_level=%r, gain=%r, read_noise=%r)" % (
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def tree_flatten(self):
-- 
2.43.0


From 69b8fa96510dce2048b48d85322d427d2ae2e3bb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 47/50] fix: CCDNoise.withVariance keeps using the generator of
 the original noise

---
 jax_galsim/noise.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 8c99d38..72911d0 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -400,14 +400,15 @@ class CCDNoise(BaseNoise):
 
     def _withVariance(self, variance):
         current_var = self._getVariance()
-        return jax.lax.cond(
-            current_var > 0.0,
-            lambda variance, current_var: self._withScaledVariance(
-                variance / current_var
-            ),
-            lambda variance, current_var: CCDNoise(self.rng, sky_level=variance),
-            variance,
-            current_var,
+        # Only the parameters are conditional, so that the new noise uses the same rng.
+        scaled = self._withScaledVariance(
+            variance / jnp.where(current_var > 0.0, current_var, 1.0)
+        )
+        return CCDNoise(
+            self.rng,
+            sky_level=jnp.where(current_var > 0.0, scaled.sky_level, variance),
+            gain=jnp.where(current_var > 0.0, scaled.gain, 1.0),
+            read_noise=jnp.where(current_var > 0.0, scaled.read_noise, 0.0),
         )
 
     def _withScaledVariance(self, variance_ratio):
-- 
2.43.0


From ca8d6ec1e8336a60d398e999461033fa20ce20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 48/50] fix: an integer image can be wrapped onto a much
 smaller rectangle

---
 jax_galsim/core/wrap_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/wrap_image.py b/jax_galsim/core/wrap_image.py
index de41040..6218eb1 100644
--- a/jax_galsim/core/wrap_image.py
+++ b/jax_galsim/core/wrap_image.py
@@ -29,7 +29,7 @@ def _block_reduce_index(sim, nxwrap, nywrap):
     y = jnp.moveaxis(y, -1, -2)
     # now the array shape is (ny * nx, nywrap, nxwrap)
     # then we sum on axis 0 to get the final shape (nywrap, nxwrap)
-    return y.sum(axis=0)
+    return y.sum(axis=0, dtype=sim.dtype)
 
 
 @partial(jax.jit, static_argnames=("nx", "ny", "nxwrap", "nywrap"))
-- 
2.43.0


From 8d03d71cd99af463569c4c3625826adf265f04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 49/50] fix: the scale of an Image, and so its Fourier
 transform, can be traced

---
 jax_galsim/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 1613b9c..5662505 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -8,6 +8,7 @@ from jax.tree_util import register_pytree_node_class
 from jax_galsim.bounds import Bounds, BoundsD, BoundsI
 from jax_galsim.core.utils import (
     cast_numpy_array_to_native_byte_order,
+    cast_to_float,
     ensure_hashable,
     implements,
 )
@@ -263,7 +264,7 @@ class Image(object):
                     wcs=wcs,
                     scale=scale,
                 )
-            self.wcs = PixelScale(float(scale))
+            self.wcs = PixelScale(cast_to_float(scale, accept_strings=True))
         else:
             if wcs is not None and not isinstance(wcs, BaseWCS):
                 raise TypeError("wcs parameters must be a galsim.BaseWCS instance")
-- 
2.43.0


From e6d99e5ed225f8c064de2c0a69f2baa225df530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 50/50] fix: Fourier transforms of images are computed in
 double precision for every pixel type

---
 jax_galsim/image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 5662505..45de882 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -885,7 +885,9 @@ class Image(object):
         # we shift the image before and after the FFT to match the layout of the modes
         # used by GalSim
         out._array = out._array.at[...].set(
-            jnp.fft.fftshift(jnp.fft.rfft2(jnp.fft.fftshift(ximage.array)), axes=0)
+            jnp.fft.fftshift(
+                jnp.fft.rfft2(jnp.fft.fftshift(ximage.array.astype(float))), axes=0
+            )
         )
 
         out *= dx * dx
@@ -952,7 +954,7 @@ class Image(object):
             scale=dx,
             # we shift the image before and after the FFT to match the layout used by galsim
             array=jnp.fft.fftshift(
-                jnp.fft.irfft2(jnp.fft.fftshift(kimage.array, axes=0))
+                jnp.fft.irfft2(jnp.fft.fftshift(kimage.array.astype(complex), axes=0))
             )
             * (dk * No2 / jnp.pi) ** 2,
         )
-- 
2.43.0

