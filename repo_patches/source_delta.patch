From 76a862c87d15e7d70b329f2692d063402253076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 01/58] fix: Marin integration of point groups with different
 numbers of points

---
 .../sections/section_integrators/_marin_integrator.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..8f02b8c 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -240,7 +240,11 @@ class MarinIntegrator(SectionIntegrator):
             z.append(reinf_data[1])
             IA.append(integrand * reinf_data[2])
 
-        input.append((1, np.array(y), np.array(z), np.array(IA)))
+        # The groups of points may have different lengths
+        y = np.hstack(y) if len(y) > 0 else np.array([])
+        z = np.hstack(z) if len(z) > 0 else np.array([])
+        IA = np.hstack(IA) if len(IA) > 0 else np.array([])
+        input.append((1, y, z, IA))
         return integration_data
 
     def prepare_input(
-- 
2.43.0


From 0797a2cf7d7c87731e1b67b92ad5eaa3bfd6f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 02/58] fix: Marin integration drops the area when a strain
 limit lies on an edge

---
 .../section_integrators/_marin_integrator.py  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 8f02b8c..67b2f0b 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -7,7 +7,12 @@ from math import atan2, cos, sin
 
 import numpy as np
 from numpy.typing import ArrayLike, NDArray
-from shapely import MultiLineString, MultiPolygon, Polygon
+from shapely import (
+    GeometryCollection,
+    MultiLineString,
+    MultiPolygon,
+    Polygon,
+)
 from shapely.geometry.polygon import orient
 
 from structuralcodes.core._marin_integration import marin_integration
@@ -160,10 +165,17 @@ class MarinIntegrator(SectionIntegrator):
                     if isinstance(result, Polygon):
                         # If the result is a single polygon
                         self._get_input_polygon(result, coeffs[p], input)
-                    elif isinstance(result, MultiPolygon):
-                        # If the result is a MultiPolygon
+                    elif isinstance(
+                        result, (MultiPolygon, GeometryCollection)
+                    ):
+                        # If the result is a MultiPolygon, or a collection
+                        # (polygons plus lines or points where the cut runs
+                        # along an edge or touches a vertex)
                         for polygon in result.geoms:
-                            self._get_input_polygon(polygon, coeffs[p], input)
+                            if isinstance(polygon, Polygon):
+                                self._get_input_polygon(
+                                    polygon, coeffs[p], input
+                                )
 
     def _create_integration_data_point_geometries(
         self, geo: CompoundGeometry
-- 
2.43.0


From 1b2f88be39f09d02ec75505f17369fc91339575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 03/58] fix: fiber mesh of surfaces with non-convex holes

---
 .../sections/section_integrators/_fiber_integrator.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..d1fbf07 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,9 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            # The centroid of a non-convex hole may lie outside the hole
+            c = Polygon(interior).representative_point()
+            holes.append([c.x, c.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From be3d12331081d207fa8b13d364ad54b3392a66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 04/58] fix: marin_integration overflows with integer arrays

---
 structuralcodes/core/_marin_integration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/core/_marin_integration.py b/structuralcodes/core/_marin_integration.py
index db4bb31..feff0b1 100644
--- a/structuralcodes/core/_marin_integration.py
+++ b/structuralcodes/core/_marin_integration.py
@@ -33,6 +33,9 @@ def marin_integration(
     Returns:
         float: The result of the integrated polynomial.
     """
+    # Integer arrays would overflow silently for large orders
+    y = [float(v) for v in y]
+    z = [float(v) for v in z]
     mom = 0
     for i in range(len(y) - 1):
         # Sum over j
-- 
2.43.0


From b593ef0846ccd32ce8560f6e8cfdd135e76b4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 05/58] fix: constitutive laws modify the strains of the caller

---
 structuralcodes/core/base.py                           |  2 ++
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..c5cfd72 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -211,6 +211,8 @@ class ConstitutiveLaw(abc.ABC):
             if np.isclose(eps, eps_min, atol=1e-6):
                 return eps_min
             return eps
+        # Work on a copy, the array belongs to the caller
+        eps = eps.astype(float)
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_max, atol=1e-6)
         eps[idxs] = eps_max
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_min, atol=1e-6)
diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..e4ab8ae 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..8efc8e7 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..6ad498c 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From b09bd678f83fd1e5f31b0f2ee7c827b684ae0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 06/58] fix: Marin coefficients of parallel laws with
 discretized members

---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..0c2e14b 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From 5236e82e2fc6ee78e23c31797a3e2ca82b3992af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 07/58] fix: Marin coefficients of initial strain without
 strain compatibility

---
 .../materials/constitutive_laws/_initial_strain.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..8385f8a 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -97,6 +97,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self._initial_stress,)]
         return self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
@@ -115,6 +117,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self.get_tangent(0.0),)]
         return self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
-- 
2.43.0


From 2009b25872b2266b38e6b7656cc30b075c6f6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 08/58] fix: initial strain law with lists and arrays

---
 .../materials/constitutive_laws/_initial_strain.py         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 8385f8a..a9efb2f 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,12 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            if np.isscalar(eps):
+                return tangent
+            return np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
-- 
2.43.0


From f95aa1d27d5a0591e32420c4fd304d33a73d8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 09/58] fix: Marin strain limits of laws with initial strain

---
 .../constitutive_laws/_initial_strain.py        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index a9efb2f..7fe07bf 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -88,6 +88,17 @@ class InitialStrain(ConstitutiveLaw):
             return np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
+    def _shift_strains(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """Refer the strain limits of the wrapped law to the total strain."""
+        if strains is None:
+            return None
+        return [
+            (eps_0 - self._initial_strain, eps_1 - self._initial_strain)
+            for eps_0, eps_1 in strains
+        ]
+
     def __marin__(
         self, strain: t.Tuple[float, float]
     ) -> t.Tuple[t.List[t.Tuple], t.List[t.Tuple]]:
@@ -104,9 +115,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self._initial_stress,)]
-        return self._wrapped_law.__marin__(
+        strains, coeffs = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strains(strains), coeffs
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -124,9 +136,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self.get_tangent(0.0),)]
-        return self._wrapped_law.__marin_tangent__(
+        strains, coeffs = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strains(strains), coeffs
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From b32d803a944ec3f295b9e64605f602f5dcbe35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 10/58] fix: tangent and secant of integer strains are
 truncated

---
 structuralcodes/core/base.py                                  | 2 +-
 .../materials/constitutive_laws/_bilinearcompression.py       | 2 +-
 structuralcodes/materials/constitutive_laws/_elastic.py       | 2 +-
 .../materials/constitutive_laws/_elasticplastic.py            | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py         | 2 +-
 structuralcodes/materials/constitutive_laws/_parallel.py      | 4 ++--
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index c5cfd72..f6ca58c 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -304,7 +304,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros(eps.shape)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index e4ab8ae..2345520 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -74,7 +74,7 @@ class BilinearCompression(ConstitutiveLaw):
             return 0
 
         # If it is an array
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones(eps.shape) * self._E
         tangent[eps >= 0] = 0
         tangent[eps < self._eps_c] = 0
 
diff --git a/structuralcodes/materials/constitutive_laws/_elastic.py b/structuralcodes/materials/constitutive_laws/_elastic.py
index d085257..04cff8a 100644
--- a/structuralcodes/materials/constitutive_laws/_elastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elastic.py
@@ -61,7 +61,7 @@ class Elastic(ConstitutiveLaw):
         if np.isscalar(eps):
             return self._E
         eps = np.atleast_1d(eps)
-        return np.ones_like(eps) * self._E
+        return np.ones(eps.shape) * self._E
 
     def __marin__(
         self, strain: t.Tuple[float, float]
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 8efc8e7..0598c54 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones(eps.shape) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 6ad498c..f919056 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros(eps.shape)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 0c2e14b..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From 992c973d547d91eb95338258a43d3c0fba6ac037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 11/58] fix: tangent of the bilinear law at zero strain for
 arrays

---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index 2345520..77afac7 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones(eps.shape) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From 9b12357828d9cbee38eb8bf63680ad9305e3b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 12/58] fix: extrapolated stress of user defined laws with
 integer data

---
 structuralcodes/materials/constitutive_laws/_userdefined.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index fc27554..d81ac0a 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -48,8 +48,8 @@ class UserDefined(ConstitutiveLaw):
         """
         name = name if name is not None else 'UserDefinedLaw'
         super().__init__(name=name)
-        x = np.atleast_1d(np.asarray(x))
-        y = np.atleast_1d(np.asarray(y))
+        x = np.atleast_1d(np.asarray(x, dtype=float))
+        y = np.atleast_1d(np.asarray(y, dtype=float))
         if len(x) != len(y):
             raise ValueError('The two arrays should have the same length')
         if not np.any(x < 0):
-- 
2.43.0


From e5b6faf2b17d6b16246148b327d94cd757a6c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 13/58] fix: initial strain from a large initial stress does
 not converge

---
 structuralcodes/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index f6ca58c..be66fe1 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -128,9 +128,10 @@ class Material(abc.ABC):
         """
         # Iteratively compute the initial strain that gives the desired
         # initial stress. Note that the wrapped law can be nonlinear
-        tol = 1e-12
         max_iter = 100
         target_stress = self._initial_stress
+        # The tolerance cannot be below the round-off of the target
+        tol = 1e-12 * max(1.0, abs(target_stress))
         strain = 0.0
         stress = self._constitutive_law.get_stress(strain)
         d_stress = target_stress - stress
-- 
2.43.0


From 89f0a3c129605e000401ee8195735d41ce6c1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 14/58] fix: surface geometries lose name and group label when
 transformed

---
 structuralcodes/geometry/_geometry.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..58023fa 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -582,6 +582,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def rotate(
@@ -609,6 +611,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -631,6 +635,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     @staticmethod
@@ -668,7 +674,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo.name,
+            group_label=geo.group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From fa5d54c6858b21d4d882034d9ff902a1679ac907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 15/58] fix: subtracting geometries loses the concrete flag and
 labels

---
 structuralcodes/geometry/_geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 58023fa..1b7aa58 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -562,7 +562,13 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        return SurfaceGeometry(
+            poly=sub_polygon,
+            material=material,
+            concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
+        )
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
-- 
2.43.0


From e79012d9a216dc3079f7e80195ea6e213fec9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 16/58] fix: vertical split lines end at the wrong height

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 1b7aa58..2d1881c 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 3453171c30ab04821ddc2d5ccd0b4f19779823f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 17/58] fix: compound geometries miss name, label and
 reinforced concrete flag

A compound built from a MultiPolygon raised an AttributeError for
reinforced_concrete, and every compound did for name and group_label.
---
 structuralcodes/geometry/_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 2d1881c..5dbd6f9 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -766,6 +766,8 @@ class CompoundGeometry(Geometry):
                 to all polygons) or a list of materials. In this case the
                 number of polygons should match the number of materials.
         """
+        super().__init__()
+        self._reinforced_concrete = None
         if isinstance(geometries, MultiPolygon):
             # a MultiPolygon is provided
             self.geometries = _process_geometries_multipolygon(
@@ -787,7 +789,6 @@ class CompoundGeometry(Geometry):
                 for pg in self.point_geometries
             ]
             self.geom = MultiPolygon(geoms_representation)
-        self._reinforced_concrete = None
 
     # we can add here static methods like
     # from_dxf
-- 
2.43.0


From 636e8dce8cbda36824e7a241582264fda2d29066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 18/58] fix: one bar along a line or circle divides by zero

---
 structuralcodes/geometry/_reinforcement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..c319b3f 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -94,7 +94,7 @@ def add_reinforcement_line(
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
         # Provided the number of bars
-        s = distance / (n - 1)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From 71007624644a05e098798b0e1de9307790b82ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 19/58] fix: first and last bar coincide on a whole circle with
 given spacing

---
 structuralcodes/geometry/_reinforcement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index c319b3f..43f63bc 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,9 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
-        # the special case
-        whole = False
+        # The special case is needed only if the last bar would coincide with
+        # the first one
+        whole = whole and n > 1 and math.isclose(needed_length, length)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0


From f369cc658395da227fa8b0483fd1b8b60dc89f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 20/58] fix: splitting along an edge loses pieces of the
 polygon

The representative point of a piece with a spike may lie on the boundary, so
that the piece was taken for a hole.
---
 structuralcodes/geometry/_geometry.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 5dbd6f9..3228e66 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -17,7 +17,7 @@ from shapely.geometry import (
     Point,
     Polygon,
 )
-from shapely.ops import split
+from shapely.ops import polygonize, polylabel
 
 from structuralcodes.core.base import Material
 from structuralcodes.materials.basic import ElasticMaterial
@@ -371,6 +371,19 @@ def create_line_point_angle(
     return LineString([(x1, y1), (x2, y2)])
 
 
+def _inner_point(polygon: Polygon) -> Point:
+    """Returns a point inside the polygon, and not on its boundary.
+
+    The representative point could be on the boundary if the polygon has a
+    spike, e.g. if it is cut by a line running along an edge.
+    """
+    thickness = polygon.area / polygon.length
+    point = polygon.representative_point()
+    if polygon.boundary.distance(point) < 1e-6 * thickness:
+        point = polylabel(polygon, tolerance=0.1 * thickness)
+    return point
+
+
 class SurfaceGeometry(Geometry):
     """Class for a surface geometry with material.
 
@@ -494,9 +507,15 @@ class SurfaceGeometry(Geometry):
         above_polygons = []
         below_polygons = []
         if line.intersects(self.polygon):
-            result = split(self.polygon, line)
+            # some of the polygonized pieces may be holes, we need only those
+            # with an inner point in the polygon
+            pieces = [
+                piece
+                for piece in polygonize(self.polygon.boundary.union(line))
+                if self.polygon.contains(_inner_point(piece))
+            ]
             # divide polygons "above" and "below" line
-            for geom in result.geoms:
+            for geom in pieces:
                 if LinearRing(
                     (line.coords[0], line.coords[1], geom.centroid.coords[0])
                 ).is_ccw:
-- 
2.43.0


From 5b52381527fd1853a7b620fc1f13b38301df269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 21/58] fix: splitting with two lines along an edge may return
 the whole polygon

The overlay of shapely with floating precision is wrong in rare cases, e.g.
for a rectangle rotated by 45 degrees and a band which touches its edge.
---
 structuralcodes/geometry/_geometry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 3228e66..7bae0c7 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -8,7 +8,7 @@ from math import atan2
 
 import numpy as np
 from numpy.typing import ArrayLike
-from shapely import affinity
+from shapely import affinity, clip_by_rect
 from shapely.geometry import (
     LinearRing,
     LineString,
@@ -556,8 +556,17 @@ class SurfaceGeometry(Geometry):
             multi_line = MultiLineString(lines)
         lines_polygon = multi_line.convex_hull
 
-        # get the intersection
-        return self.polygon.intersection(lines_polygon)
+        # get the intersection. With floating precision it may be wrong if a
+        # line runs along an edge, while a fixed grid is robust. Far away parts
+        # of the lines are clipped to keep the grid fine.
+        bounds = np.array(self.polygon.bounds)
+        size = np.max(np.abs(bounds))
+        lines_polygon = clip_by_rect(
+            lines_polygon, *(bounds + size * np.array([-1, -1, 1, 1]))
+        )
+        return self.polygon.intersection(
+            lines_polygon, grid_size=1e-12 * size
+        )
 
     def __sub__(self, other: Geometry) -> SurfaceGeometry:
         """Add operator "-" for geometries.
-- 
2.43.0


From 8fd9ecffbdfec4545e67cb55cdac392200c35831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 22/58] fix: subtracting a surface which shares an edge may
 return the whole surface

The overlay of shapely with floating precision is wrong if edges coincide up
to round-off, e.g. for a notch at the edge of a rotated section.
---
 structuralcodes/geometry/_geometry.py | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7bae0c7..767d02c 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -384,6 +384,30 @@ def _inner_point(polygon: Polygon) -> Point:
     return point
 
 
+def _subtract(polygon: Polygon, other: Polygon) -> Polygon:
+    """Subtracts a polygon from another one.
+
+    With floating precision the result may be wrong if the polygons share an
+    edge, while a fixed grid, fine relative to the size, is robust.
+    """
+    if polygon.is_empty or other.is_empty:
+        return polygon
+    size = np.max(np.abs([*polygon.bounds, *other.bounds]))
+    grid_size = 1e-12 * size
+    result = polygon.difference(other, grid_size=grid_size)
+    if isinstance(result, Polygon):
+        return result
+    # drop slivers and lines along shared edges
+    pieces = [
+        piece
+        for piece in getattr(result, 'geoms', [])
+        if piece.area > 10 * grid_size * piece.length
+    ]
+    if len(pieces) > 1:
+        return MultiPolygon(pieces)
+    return pieces[0] if pieces else Polygon()
+
+
 class SurfaceGeometry(Geometry):
     """Class for a surface geometry with material.
 
@@ -583,12 +607,12 @@ class SurfaceGeometry(Geometry):
         sub_polygon = self.polygon
         if isinstance(other, SurfaceGeometry):
             # We are subtracting a surface from another surface
-            sub_polygon = self.polygon - other.polygon
+            sub_polygon = _subtract(self.polygon, other.polygon)
         if isinstance(other, CompoundGeometry):
             # We are subtracting a compound from a surface
             sub_polygon = self.polygon
             for g in other.geometries:
-                sub_polygon = sub_polygon - g.polygon
+                sub_polygon = _subtract(sub_polygon, g.polygon)
 
         return SurfaceGeometry(
             poly=sub_polygon,
-- 
2.43.0


From 0c1920cfcd7a17434f0ee0ab4b9220b1429430d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 23/58] fix: gross properties of sections with separate parts

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..c5f3c09 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -150,8 +150,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From b8c9aa86c62446815b9d1857a2dd37b5c661fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 24/58] fix: sign of the principal axis angle of a section

---
 structuralcodes/sections/_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c5f3c09..dcf538f 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -284,7 +284,8 @@ class GenericSectionCalculator(SectionCalculator):
             min_idx = 0 if max_idx == 1 else 1
             i11 = eigres[0][max_idx]
             i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            # The angle from the y axis to the axis with the largest moment
+            theta = 0.5 * np.arctan2(-2 * iyz, iyy - izz)
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From 16aac2d14c544ce7f0ac3ef9b409e8b63dd439e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 25/58] fix: mesh size is ignored if the first call does not
 pass it on

---
 structuralcodes/sections/_generic.py  | 7 ++++++-
 structuralcodes/sections/_rc_utils.py | 4 +---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index dcf538f..2f44ceb 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -555,7 +555,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1380,6 +1383,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1468,6 +1472,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..7003398 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -57,9 +57,7 @@ def calculate_elastic_cracked_properties(
 
     # Get the integrator properties
     if isinstance(section.section_calculator.integrator, FiberIntegrator):
-        mesh_size = getattr(
-            section.section_calculator.integrator, 'mesh_size', 0.01
-        )
+        mesh_size = section.section_calculator.mesh_size
         integrator = 'fiber'
     else:
         mesh_size = None
-- 
2.43.0


From 6ffe4b6836d5ced2f9582fc54142c41ab0a975ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 26/58] fix: moment-curvature results miss theta

---
 structuralcodes/sections/_generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 2f44ceb..68adb61 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -832,6 +832,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
-- 
2.43.0


From 93df895ff8721a7e68a0d740debc5abea39a1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 27/58] fix: moment-curvature results of integer curvatures are
 truncated

---
 structuralcodes/sections/_generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 68adb61..05e3641 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -887,11 +887,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(chi, dtype=float)
+        mz = np.zeros_like(chi, dtype=float)
+        chi_y = np.zeros_like(chi, dtype=float)
+        chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From c6f7938cfebc42b331a0f29cf5175c9b38ad53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 28/58] fix: strain profile which converges in the last
 iteration is rejected

---
 structuralcodes/sections/_generic.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 05e3641..7f678e1 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1493,8 +1493,8 @@ class GenericSectionCalculator(SectionCalculator):
         # Do Newton loops
         while True:
             # Check if number of iterations exceeds the maximum
-            if num_iter > max_iter:
-                break
+            if num_iter >= max_iter:
+                raise StopIteration('Maximum number of iterations reached.')
 
             # Calculate response and residuals
             response = np.array(self.integrate_strain_profile(strain=strain))
@@ -1526,7 +1526,4 @@ class GenericSectionCalculator(SectionCalculator):
             if np.linalg.norm(delta_strain) < tol:
                 break
 
-        if num_iter >= max_iter:
-            raise StopIteration('Maximum number of iterations reached.')
-
         return strain.tolist()
-- 
2.43.0


From 282ceaf58feaf0b905c3c06a9d966fd619407a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 29/58] fix: field numbers of the NMM domain cover the last
 angle only

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 7f678e1..5cb14c0 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1357,9 +1357,10 @@ class GenericSectionCalculator(SectionCalculator):
         thetas = np.linspace(0, np.pi * 2, num_theta)
         # Initialize an empty array with the correct shape
         strains = np.empty((0, 3))
+        field_num = np.empty(0, dtype=int)
         for theta in thetas:
             # Get ultimate strain profiles for theta angle
-            strain, field_num = self._compute_ultimate_strain_profiles(
+            strain, field_num_theta = self._compute_ultimate_strain_profiles(
                 theta=theta,
                 num_1=num_1,
                 num_2=num_2,
@@ -1375,6 +1376,7 @@ class GenericSectionCalculator(SectionCalculator):
                 type_6=type_6,
             )
             strains = np.vstack((strains, strain))
+            field_num = np.concatenate((field_num, field_num_theta))
 
         # integrate all strain profiles
         forces = np.zeros_like(strains)
-- 
2.43.0


From 965e4a4b038641343dbba4257e2cb5abc5895049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 30/58] fix: a failed analysis leaves the integration data of
 the section rotated

---
 structuralcodes/sections/_generic.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 5cb14c0..bc6214e 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -24,6 +25,21 @@ from structuralcodes.materials.basic import ElasticMaterial
 from .section_integrators import SectionIntegrator, integrator_factory
 
 
+def _keep_integration_data_on_error(method):
+    """Restore the integration data if a method fails while they are rotated."""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSection(Section):
     """This is the implementation of the generic class section.
 
@@ -735,6 +751,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_keep_integration_data_on_error
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -793,6 +810,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_keep_integration_data_on_error
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From 0cd02a147d656b2a6e204bdfac1fe554a01709c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 31/58] fix: steel surfaces in tension are dropped from the
 cracked section

---
 structuralcodes/sections/_rc_utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index 7003398..d75ed42 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -35,8 +35,8 @@ def calculate_elastic_cracked_properties(
     """Calculates the cracked section properties of a reinforced concrete
     section. (GenericSection). Materials in surface geometries and point
     geometries are elastic-linear in order to make the cracking properties
-    independent of the stress state. Tension in all surface geometries is
-    neglected.
+    independent of the stress state. Tension in all concrete surface geometries
+    is neglected.
 
     Args:
         section (GenericSection): The section to use as basis for the
@@ -112,10 +112,16 @@ def calculate_elastic_cracked_properties(
 
     # Cutting concrete geometries and retaining the compressed block
     cut_geom = None
-    for part in rotated_geometry.geometries:
-        upper_div, lower_div = part.split(((0, z_na), 0))
-        # Convert to SurfaceGeometry
-        subpart = _create_surface_geometries(upper_div, part.material)
+    for part, original in zip(
+        rotated_geometry.geometries, section.geometry.geometries
+    ):
+        if original.concrete:
+            upper_div, lower_div = part.split(((0, z_na), 0))
+            # Convert to SurfaceGeometry
+            subpart = _create_surface_geometries(upper_div, part.material)
+        else:
+            # It is not concrete, also the part in tension is retained
+            subpart = CompoundGeometry([part])
         if cut_geom is None:
             cut_geom = subpart
         else:
-- 
2.43.0


From 1fe64600f8d11b7ff228899bd9742c94349b4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 32/58] fix: fiber mesh of small surfaces is not refined

---
 .../sections/section_integrators/_fiber_integrator.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index d1fbf07..2efdf70 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -86,7 +86,8 @@ class FiberIntegrator(SectionIntegrator):
             # prepare data structure for triangle module
             tri = self.prepare_triangulation(g)
             # define the maximum area of the triangles
-            max_area = g.area * mesh_size
+            # (triangle does not understand the scientific notation)
+            max_area = np.format_float_positional(g.area * mesh_size)
             # triangulate the geometry getting back the mesh
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
-- 
2.43.0


From 10016b8b3707e9b1f9a63d0d38df767374692d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 33/58] fix: cracked properties may not converge with the fiber
 integrator

---
 structuralcodes/sections/_rc_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d75ed42..5d5edf9 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -71,7 +71,9 @@ def calculate_elastic_cracked_properties(
         density = geo.material.density
         if geo.concrete:
             # It is concrete we only give compression behavior
-            elastic_law = UserDefined([-100, 0], [-100 * E, 0])
+            # (zero strain is not the ultimate strain, as then small strains
+            # are neglected and there may be no equilibrium)
+            elastic_law = UserDefined([-100, 0, 100], [-100 * E, 0, 0])
             elastic_law = GenericMaterial(
                 density=density,
                 constitutive_law=elastic_law,
-- 
2.43.0


From d631747a411fca3679d0a60070d5ed99a827c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 34/58] fix: bending strength of sections with several
 materials

With several materials the part which limits the strains depends on the
curvature. With a fixed pivot other parts failed before and the axial force
could not be balanced.
---
 structuralcodes/sections/_generic.py | 75 +++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index bc6214e..8b6374f 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -388,6 +388,48 @@ class GenericSectionCalculator(SectionCalculator):
         strain = [eps_0, -chi_min, 0]
         return (y_n, y_p, strain)
 
+    def _get_pivots(
+        self, geom: CompoundGeometry, yielding: bool, tension: bool
+    ) -> t.Tuple[NDArray, NDArray, t.Callable]:
+        """Return the candidates for the pivot of the strain profile.
+
+        Arguments:
+            geom (CompoundGeometry): A geometry in the rotated reference
+                system.
+            yielding (bool): Consider yielding instead of ultimate strain.
+            tension (bool): If True the limits in tension are returned,
+                otherwise those in compression.
+
+        Returns:
+            Tuple(NDArray, NDArray, Callable): The coordinates and the limit
+            strains of all parts, and the function (min or max) which selects
+            the governing axial strain. Which part governs depends on the
+            curvature if there are several materials.
+        """
+        is_rc_section = self.section.geometry.reinforced_concrete
+        pivots = []
+        strains = []
+        for g in geom.geometries + geom.point_geometries:
+            is_surface = isinstance(g, SurfaceGeometry)
+            # In a reinforced concrete section, only the concrete may yield in
+            # compression
+            use_yielding = yielding and (
+                tension or not is_rc_section or (is_surface and g.concrete)
+            )
+            eps_n, eps_p = g.material.constitutive_law.get_ultimate_strain(
+                yielding=use_yielding
+            )
+            strains.append(eps_p if tension else eps_n)
+            if is_surface:
+                pivots.append(g.polygon.bounds[1 if tension else 3])
+            else:
+                pivots.append(g._point.coords[0][1])
+        return (
+            np.array(pivots),
+            np.array(strains),
+            np.min if tension else np.max,
+        )
+
     def find_equilibrium_fixed_pivot(
         self, geom: CompoundGeometry, n: float, yielding: bool = False
     ) -> t.List[float]:
@@ -412,9 +454,7 @@ class GenericSectionCalculator(SectionCalculator):
         ITMAX = 100
         # 1. Start with a balanced failure: this is found from all ultimate
         # strains for all materials, checking the minimum curvature value
-        y_n, y_p, strain = self.get_balanced_failure_strain(geom, yielding)
-        eps_p = strain[0] + strain[1] * y_p
-        eps_n = strain[0] + strain[1] * y_n
+        _, _, strain = self.get_balanced_failure_strain(geom, yielding)
         # Integrate this strain profile corresponding to balanced failure
         (
             n_int,
@@ -439,15 +479,11 @@ class GenericSectionCalculator(SectionCalculator):
             # return the equilibrium position
             return [strain[0], chi_a, 0]
         chi_b = -1e-13
-        if n_int < n:
-            # Too much compression, raise NA
-            pivot = y_p
-            strain_pivot = eps_p
-        else:
-            # Too much tension, lower NA
-            pivot = y_n
-            strain_pivot = eps_n
-        eps_0 = strain_pivot - chi_b * pivot
+        # Too much compression: raise NA; too much tension: lower NA
+        pivots, strain_pivots, limit = self._get_pivots(
+            geom, yielding, tension=n_int < n
+        )
+        eps_0 = limit(strain_pivots - chi_b * pivots)
         n_int, _, _, _ = self.integrator.integrate_strain_response_on_geometry(
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
@@ -455,7 +491,7 @@ class GenericSectionCalculator(SectionCalculator):
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
-            eps_0 = strain_pivot - chi_c * pivot
+            eps_0 = limit(strain_pivots - chi_c * pivots)
             (
                 n_int,
                 _,
@@ -620,12 +656,15 @@ class GenericSectionCalculator(SectionCalculator):
         Returns:
             Tuple(float, float): Minimum and Maximum axial load.
         """
-        # Find balanced failure to get strain limits
-        y_n, y_p, strain = self.get_balanced_failure_strain(
-            geom=self.section.geometry, yielding=False
+        # Find the governing strain limits
+        _, strains, limit = self._get_pivots(
+            geom=self.section.geometry, yielding=False, tension=True
+        )
+        eps_p = limit(strains)
+        _, strains, limit = self._get_pivots(
+            geom=self.section.geometry, yielding=False, tension=False
         )
-        eps_p = strain[0] + strain[1] * y_p
-        eps_n = strain[0] + strain[1] * y_n
+        eps_n = limit(strains)
 
         n_min, _, _, integration_data = (
             self.integrator.integrate_strain_response_on_geometry(
-- 
2.43.0


From 6afe0db04993be65af3489a2806f2c9c9e8b5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 35/58] fix: bending strength may miss the almost uniform
 ultimate strain

---
 structuralcodes/sections/_generic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 8b6374f..b5dd353 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -488,6 +488,9 @@ class GenericSectionCalculator(SectionCalculator):
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
         dn_b = n_int - n
+        # The axial load may be balanced by the (almost) uniform strain
+        if abs(dn_b) <= 1e-2:
+            return [eps_0, chi_b, 0]
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
@@ -501,6 +504,9 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
+            if abs(dn_c) <= 1e-2:
+                # Already in equilibrium
+                break
             if dn_c * dn_a < 0:
                 chi_b = chi_c
                 dn_b = dn_c
-- 
2.43.0


From a966593487c6a08ee204429ccaf5124f06dc49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 36/58] fix: moment-curvature fails or is not in equilibrium
 close to failure

---
 structuralcodes/sections/_generic.py | 66 +++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index b5dd353..4c9a44a 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -577,7 +577,7 @@ class GenericSectionCalculator(SectionCalculator):
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
@@ -602,8 +602,6 @@ class GenericSectionCalculator(SectionCalculator):
             curvatures.
         """
         # Useful for Moment Curvature Analysis
-        # Number of maximum iteration for the bisection algorithm
-        ITMAX = 100
         # Start from previous position of N.A.
         eps_0_a = eps_0
         # find internal axial force by integration
@@ -625,9 +623,65 @@ class GenericSectionCalculator(SectionCalculator):
         if abs(dn_a) <= 1e-2:
             # return the equilibrium position
             return [eps_0_a, curv, 0]
-        eps_0_b, dn_b = self._prefind_range_curvature_equilibrium(
-            geom, n, curv, eps_0_a, dn_a
-        )
+        try:
+            eps_0_b, dn_b = self._prefind_range_curvature_equilibrium(
+                geom, n, curv, eps_0_a, dn_a
+            )
+            return self._bisect_fixed_curvature(
+                geom, n, curv, (eps_0_a, dn_a), (eps_0_b, dn_b)
+            )
+        except ValueError:
+            # The search may step over the solution if it is close to the
+            # failure of a material: search within the ultimate strains
+            ends = []
+            for eps_0 in self._get_range_fixed_curvature(geom, curv):
+                n_int, *_ = (
+                    self.integrator.integrate_strain_response_on_geometry(
+                        geom,
+                        [eps_0, curv, 0],
+                        integration_data=self.integration_data,
+                    )
+                )
+                if abs(n_int - n) <= 1e-2:
+                    return [eps_0, curv, 0]
+                ends.append((eps_0, n_int - n))
+            if ends[0][0] >= ends[1][0] or ends[0][1] * ends[1][1] > 0:
+                raise
+            return self._bisect_fixed_curvature(geom, n, curv, *ends)
+
+    def _get_range_fixed_curvature(
+        self, geom: CompoundGeometry, curv: float
+    ) -> t.Tuple[float, float]:
+        """Return the range of axial strains for which no part of the geometry
+        exceeds its ultimate strains with the given curvature.
+        """
+        eps_min, eps_max = -np.inf, np.inf
+        for g in geom.geometries + geom.point_geometries:
+            eps_n, eps_p = g.material.constitutive_law.get_ultimate_strain()
+            if isinstance(g, SurfaceGeometry):
+                y = (g.polygon.bounds[1], g.polygon.bounds[3])
+            else:
+                y = (g._point.coords[0][1],)
+            eps_min = max(eps_min, *(eps_n - curv * y_i for y_i in y))
+            eps_max = min(eps_max, *(eps_p - curv * y_i for y_i in y))
+        return eps_min, eps_max
+
+    def _bisect_fixed_curvature(
+        self,
+        geom: CompoundGeometry,
+        n: float,
+        curv: float,
+        a: t.Tuple[float, float],
+        b: t.Tuple[float, float],
+    ) -> t.Tuple[float, float, float]:
+        """Find the axial strain in equilibrium between two axial strains, both
+        given with the unbalanced axial force.
+        """
+        # Number of maximum iteration for the bisection algorithm
+        ITMAX = 100
+        eps_0_a, dn_a = a
+        eps_0_b, dn_b = b
+        eps_0_c = eps_0_b
         # Found a range within there is the solution, apply bisection
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
-- 
2.43.0


From 8929cb400f0269336529655f742fa63b11505156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 37/58] fix: spacing of interaction domain fields ignores the
 end point

---
 structuralcodes/sections/_generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4c9a44a..4e3491e 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1320,11 +1320,15 @@ class GenericSectionCalculator(SectionCalculator):
             if type.lower() == 'linear':
                 return np.linspace(a, b, n, endpoint=endpoint)
             if type.lower() == 'geometric':
+                if a == b or n == 0:
+                    return np.full(n, a)
                 if b != 0 and a != 0:
                     return np.geomspace(a, b, n, endpoint=endpoint)
                 small_value = 1e-10
                 if b == 0:
                     b = small_value * np.sign(a)
+                    if not endpoint:
+                        return np.geomspace(a, b, n, endpoint=False)
                     return np.append(
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0
                     )
@@ -1334,8 +1338,8 @@ class GenericSectionCalculator(SectionCalculator):
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0, 0
                     )
             if type.lower() == 'quadratic':
-                quadratic_spaced = (np.linspace(0, 1, n) ** 2) * (a - b) + b
-                return quadratic_spaced[::-1]
+                spaced = 1 - np.linspace(0, 1, n, endpoint=endpoint)
+                return spaced**2 * (a - b) + b
             raise ValueError(f'Type of spacing not known: {type}')
 
         # For generation of fields 1 and 2 pivot on positive strain
-- 
2.43.0


From d5c8efce15ea2596b4f18b72809cc5818798b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 38/58] fix: interaction domains of sections with several
 materials exceed ultimate strains

---
 structuralcodes/sections/_generic.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4e3491e..d479496 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1401,6 +1401,16 @@ class GenericSectionCalculator(SectionCalculator):
         kappa_y = (eps_n - eps_p) / (y_n - y_p)
         eps_a = eps_n - kappa_y * y_n
 
+        # Other materials than those of the balanced failure may govern
+        for tension in (True, False):
+            pivots, strain_pivots, limit = self._get_pivots(
+                rotated_geom, yielding=False, tension=tension
+            )
+            eps_lim = np.array(
+                [limit(strain_pivots - kappa * pivots) for kappa in kappa_y]
+            )
+            eps_a = (np.minimum if tension else np.maximum)(eps_a, eps_lim)
+
         # rotate back components to work in section CRS
         T = np.array(
             [[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]]
-- 
2.43.0


From 1f9ecac8893471f39ae71b39d88f1dfe875fd167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 39/58] fix: keep the triangulation of the original geometry
 when an analysis fails

---
 structuralcodes/sections/_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index d479496..d06060b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -30,6 +30,9 @@ def _keep_integration_data_on_error(method):
 
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
+        # Make sure that the integration data of the original geometry are
+        # available (they are stored with the limit axial loads)
+        _ = self.n_min, self.n_max
         integration_data = self.integration_data
         try:
             return method(self, *args, **kwargs)
-- 
2.43.0


From 9fad3ddf9cb230a630d4fb11862ea6af0cef61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 40/58] fix: profiles report real principal moments and the
 angle in any access order

---
 .../geometry/profiles/_base_profile.py            | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..671710c 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -26,6 +26,7 @@ class BaseProfile:
         self._Iz: float = None
         self._Icsi: float = None
         self._Ieta: float = None
+        self._theta: float = None
         self._Iyz: float = None
         self._Wely: float = None
         self._Welz: float = None
@@ -117,16 +118,14 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
+        # The matrix is symmetric: eigh returns real eigenvalues in ascending
+        # order and real eigenvectors (with arbitrary orientation)
+        eigres = np.linalg.eigh(
             np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
         )
-        max_idx = np.argmax(eigres[0])
-        min_idx = 0 if max_idx == 1 else 1
-        self._Icsi = eigres[0][max_idx]
-        self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
-        )
+        self._Icsi = float(eigres[0][1])
+        self._Ieta = float(eigres[0][0])
+        self._theta = float(np.arccos(min(abs(eigres[1][0, 1]), 1.0)))
 
     @property
     def A(self) -> float:
-- 
2.43.0


From 6b8852ce79e05c7d98936b14b5d0cfd13d2783ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 41/58] fix: ec2_2023 __all__ named a function that does not
 exist, star import failed

---
 structuralcodes/codes/ec2_2023/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2023/__init__.py b/structuralcodes/codes/ec2_2023/__init__.py
index c866214..801b0d0 100644
--- a/structuralcodes/codes/ec2_2023/__init__.py
+++ b/structuralcodes/codes/ec2_2023/__init__.py
@@ -81,7 +81,6 @@ __all__ = [
     'phi_50y_t0',
     'phi_correction_factor',
     'reinforcement_duct_props',
-    'sigma_c',
     'sigma_p',
     'sigma_s',
     'weight_c',
-- 
2.43.0


From 0eaedd304ae4b4590371aefb015142e8de461d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 42/58] fix: mc2010 v_rd applies the given steel factor exactly
 once

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..2f3587f 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,10 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+
+        if V_rdc + V_rds < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +201,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From fdb2d9373da0ab0033fa5c47851f605f0013ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 43/58] fix: mc2010 level III shear resistance does not depend
 on the sign of the shear force

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 2f3587f..b6a8b98 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -376,7 +376,7 @@ def v_rdc_approx3(
         gamma_c,
     )
     kv = max(
-        (0.4 / (1 + 1500 * epsilonx)) * (1 - loads.get('Ved') / V_rd_max),
+        (0.4 / (1 + 1500 * epsilonx)) * (1 - abs(loads.get('Ved')) / V_rd_max),
         0,
     )
 
-- 
2.43.0


From 0e3ba3391d0c63b1c551637362a74c6a807ce1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 44/58] fix: mc2010 torsion rejects an invalid approximation
 level

---
 structuralcodes/codes/mc2010/_concrete_torsion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/codes/mc2010/_concrete_torsion.py b/structuralcodes/codes/mc2010/_concrete_torsion.py
index 1ce8331..fe474f1 100644
--- a/structuralcodes/codes/mc2010/_concrete_torsion.py
+++ b/structuralcodes/codes/mc2010/_concrete_torsion.py
@@ -75,6 +75,9 @@ def t_rd_max(
         )
         k_epsilon = min(1 / (1.2 + 55 * epsilon_1), 0.65)
 
+    else:
+        raise ValueError('Invalid approx level')
+
     k_c = eta_fc(f_ck) * k_epsilon
     return (
         k_c
-- 
2.43.0


From 743679ec776203edad8cba3cb09de74cd1fc7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 45/58] fix: mc2010 punching moments use the magnitude of the
 eccentricity for every column position

---
 structuralcodes/codes/mc2010/_concrete_punching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_punching.py b/structuralcodes/codes/mc2010/_concrete_punching.py
index 1045816..b37b0cf 100644
--- a/structuralcodes/codes/mc2010/_concrete_punching.py
+++ b/structuralcodes/codes/mc2010/_concrete_punching.py
@@ -74,11 +74,11 @@ def m_ed(
     if inner:
         return v_ed * ((1 / 8) + abs(e_u) / (2 * b_s))
     if edge_par:
-        return max(v_ed * ((1 / 8) + e_u / (2 * b_s)), v_ed / 4)
+        return max(v_ed * ((1 / 8) + abs(e_u) / (2 * b_s)), v_ed / 4)
     if edge_per:
-        return v_ed * ((1 / 8) + e_u / (b_s))
+        return v_ed * ((1 / 8) + abs(e_u) / (b_s))
     if corner:
-        return max(v_ed * ((1 / 8) + e_u / (b_s)), v_ed / 2)
+        return max(v_ed * ((1 / 8) + abs(e_u) / (b_s)), v_ed / 2)
     raise ValueError('Placement is not defined, only one needs to be True')
 
 
-- 
2.43.0


From 87d14cf9e3c274b2f2fae73d8d0d9c0b1e212ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 46/58] fix: ec2_2023 sigma_s rejects k less than 1 as
 documented

---
 structuralcodes/codes/ec2_2023/_section5_materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2023/_section5_materials.py b/structuralcodes/codes/ec2_2023/_section5_materials.py
index 921016f..e5582d4 100644
--- a/structuralcodes/codes/ec2_2023/_section5_materials.py
+++ b/structuralcodes/codes/ec2_2023/_section5_materials.py
@@ -964,7 +964,7 @@ def sigma_s(
         raise ValueError(f'Es={Es} must be larger than 0')
     if fy <= 0:
         raise ValueError(f'fyk={fy} must be larger than 0')
-    if k < 0:
+    if k < 1:
         raise ValueError(f'k={k} must be larger than 1')
 
     eps_y = fy / Es
-- 
2.43.0


From 928105599acc69b1080391c429a282c075ef661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 47/58] fix: mc2010 creep factors are zero before the age at
 loading, as in ec2_2004

---
 .../mc2010/_concrete_creep_and_shrinkage.py      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
index 7a44b9b..ab669e2 100644
--- a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
@@ -476,7 +476,13 @@ def beta_bc_t(
     Returns:
         Union(ArrayLike, float): Multiplication factors beta_bc_t.
     """
-    return np.log(((30 / t0_adj + 0.035) ** 2) * (time - t0) + 1)
+    time = time if np.isscalar(time) else np.atleast_1d(time)
+    time_load = time - t0
+    if np.isscalar(time_load):
+        time_load = max(time_load, 0.0)
+    else:
+        time_load[time_load < 0.0] = 0.0
+    return np.log(((30 / t0_adj + 0.035) ** 2) * time_load + 1)
 
 
 def phi_bc(
@@ -632,7 +638,13 @@ def beta_dc_t(
         Union(ArrayLike, float): Multiplcation factor beta_dc_t for the
         considered values of time.
     """
-    return ((time - t0) / (beta_h + (time - t0))) ** gamma_t0
+    time = time if np.isscalar(time) else np.atleast_1d(time)
+    time_load = time - t0
+    if np.isscalar(time_load):
+        time_load = max(time_load, 0.0)
+    else:
+        time_load[time_load < 0.0] = 0.0
+    return (time_load / (beta_h + time_load)) ** gamma_t0
 
 
 def phi_dc(
-- 
2.43.0


From 78d94354bc54279562b29436414879f651ecd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 48/58] fix: time-dependent functions accept every array-like
 they document

---
 .../codes/ec2_2004/_concrete_material_properties.py   |  3 +++
 .../codes/mc2010/_concrete_creep_and_shrinkage.py     | 11 +++++++++++
 .../codes/mc2010/_concrete_material_properties.py     |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
index 24664da..0d57b7e 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
@@ -266,6 +266,7 @@ def beta_cc(t: ArrayLike, s: float) -> ArrayLike:
     Returns:
         ArrayLike: The value of the time development function.
     """
+    t = t if np.isscalar(t) else np.atleast_1d(t)
     return np.exp(s * (1 - np.sqrt(28 / t)))
 
 
@@ -359,6 +360,7 @@ def fcm_time(fcm: float, beta_cc: ArrayLike) -> ArrayLike:
     Note:
         The value of beta_cc should be calculated with the function beta_cc.
     """
+    beta_cc = beta_cc if np.isscalar(beta_cc) else np.atleast_1d(beta_cc)
     return fcm * beta_cc
 
 
@@ -403,4 +405,5 @@ def Ecm_time(fcm: float, fcm_time: ArrayLike, Ecm: float) -> ArrayLike:
         Alternatively, the time development function for the Young's modulus
         could be calculated directly with the function beta_E.
     """
+    fcm_time = fcm_time if np.isscalar(fcm_time) else np.atleast_1d(fcm_time)
     return np.pow(fcm_time / fcm, 0.3) * Ecm
diff --git a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
index ab669e2..7207e95 100644
--- a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
@@ -376,6 +376,7 @@ def eps_cds(
         Union(ArrayLike, float): The drying shrinkage strains for the given
         times, no units.
     """
+    beta_ds = beta_ds if np.isscalar(beta_ds) else np.atleast_1d(beta_ds)
     return eps_cds0 * beta_rh * beta_ds
 
 
@@ -437,6 +438,7 @@ def eps_cbs(
         Union(ArrayLike, float): The basic shrinkage strains for the given
         times.
     """
+    beta_bs = beta_bs if np.isscalar(beta_bs) else np.atleast_1d(beta_bs)
     return eps_cbs0 * beta_bs
 
 
@@ -503,6 +505,9 @@ def phi_bc(
     Returns:
         Union(ArrayLike, float): The basic creep coefficient.
     """
+    beta_bc_t = (
+        beta_bc_t if np.isscalar(beta_bc_t) else np.atleast_1d(beta_bc_t)
+    )
     return beta_bc_fcm * beta_bc_t
 
 
@@ -674,6 +679,9 @@ def phi_dc(
     Returns:
         Union(ArrayLike, float): Drying creep coeffcient.
     """
+    beta_dc_t = (
+        beta_dc_t if np.isscalar(beta_dc_t) else np.atleast_1d(beta_dc_t)
+    )
     return beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t
 
 
@@ -720,6 +728,8 @@ def phi(
     Returns:
         Union(ArrayLike, float): The creep coefficient.
     """
+    phi_bc = phi_bc if np.isscalar(phi_bc) else np.atleast_1d(phi_bc)
+    phi_dc = phi_dc if np.isscalar(phi_dc) else np.atleast_1d(phi_dc)
     # Calculate the creep coefficient (phi) (see Eq. 5.1-63)
     _phi = phi_bc + phi_dc
     # Include the effect of high stress if needed (see Eq. 5.1-74 of [1]):
@@ -747,4 +757,5 @@ def calc_J(
     Returns:
         Union(ArrayLike, float): The creep compliance function.
     """
+    phi = phi if np.isscalar(phi) else np.atleast_1d(phi)
     return (1 / E_ci_t0) + (phi / E_ci)
diff --git a/structuralcodes/codes/mc2010/_concrete_material_properties.py b/structuralcodes/codes/mc2010/_concrete_material_properties.py
index c73a186..d101a56 100644
--- a/structuralcodes/codes/mc2010/_concrete_material_properties.py
+++ b/structuralcodes/codes/mc2010/_concrete_material_properties.py
@@ -157,6 +157,7 @@ def beta_cc(
     Returns:
         numpy.ndarray: Multiplication factor beta_cc.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     if fcm > 60:
         return np.exp(0.2 * (1 - np.sqrt(28 / time)))
     return np.exp(S_CEM[cem_class.upper()] * (1 - np.sqrt(28 / time)))
@@ -195,6 +196,7 @@ def Eci_t(beta_e: npt.ArrayLike, Eci: float) -> np.ndarray:
         numpy.ndarray: The modulus of elasticity for normal weight concrete at
         time 'time' (not 28 days) in MPa.
     """
+    beta_e = beta_e if np.isscalar(beta_e) else np.atleast_1d(beta_e)
     return beta_e * Eci
 
 
-- 
2.43.0


From 82f77f0d8453e339f72f1a609137dbba8a77a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 49/58] fix: passing a design code to a factory changed the
 globally set design code

---
 structuralcodes/codes/__init__.py | 42 +++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..179bcb5 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -43,24 +43,35 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+    _CODE = None if design_code is None else _find_design_code(design_code)
+
+
+def _find_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Find the module representing a design code.
+
+    Args:
+        design_code (Union[str, Moduletype]): The abbreviation of the code
+            (str), or a module that represents the code (ModuleType).
+
+    Raises:
+        ValueError: If the design code is not valid.
+    """
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
         # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
+        return _DESIGN_CODES[design_code.lower()]
+    if isinstance(design_code, types.ModuleType) and all(
         name in dir(design_code)
         for name in ('__title__', '__year__', '__materials__')
     ):
         # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +108,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # Return the given design code without changing the globally set one
+    return _find_design_code(design_code)
-- 
2.43.0


From 86099f13ab8133a48522548a699b4c3fe8b4b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 50/58] fix: constitutive law names that are not lower case are
 known but were refused

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From e0c35a4051cc7269b5d343a19217df81d07382e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 51/58] fix: existing=True was silently ignored by the
 concretes instead of being refused

---
 structuralcodes/materials/concrete/_concreteEC2_2004.py | 3 ++-
 structuralcodes/materials/concrete/_concreteEC2_2023.py | 3 ++-
 structuralcodes/materials/concrete/_concreteMC2010.py   | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/concrete/_concreteEC2_2004.py b/structuralcodes/materials/concrete/_concreteEC2_2004.py
index f60f92b..c682dbc 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2004.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2004.py
@@ -131,6 +131,7 @@ class ConcreteEC2_2004(Concrete):  # noqa: N801
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -138,7 +139,7 @@ class ConcreteEC2_2004(Concrete):  # noqa: N801
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteEC2_2023.py b/structuralcodes/materials/concrete/_concreteEC2_2023.py
index b73677b..f8277bc 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2023.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2023.py
@@ -124,6 +124,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             Warning: If eps_c2 is larger than 0.1.
             Warning: If eps_cu2 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -132,7 +133,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteMC2010.py b/structuralcodes/materials/concrete/_concreteMC2010.py
index a3ffdd1..b241d1c 100644
--- a/structuralcodes/materials/concrete/_concreteMC2010.py
+++ b/structuralcodes/materials/concrete/_concreteMC2010.py
@@ -133,6 +133,7 @@ class ConcreteMC2010(Concrete):
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -140,6 +141,7 @@ class ConcreteMC2010(Concrete):
             fck=fck,
             name=name,
             density=density,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
-- 
2.43.0


From 834e150b97928f54b80ab0a14dfa02f107686061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 52/58] fix: the strain profile search stops before convergence
 for large sections

---
 structuralcodes/sections/_generic.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index d06060b..4cdacc5 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1602,6 +1602,21 @@ class GenericSectionCalculator(SectionCalculator):
         # Collect loads in a numpy array
         loads = np.array([n, my, mz])
 
+        # Root mean square strain over the bounding box = |to_strain @ strain|
+        bounds = np.array(
+            [g.polygon.bounds for g in geom.geometries]
+            + [p.point.bounds for p in geom.point_geometries]
+        )
+        y_min, z_min = bounds[:, :2].min(axis=0)
+        y_max, z_max = bounds[:, 2:].max(axis=0)
+        to_strain = np.array(
+            [
+                [1, (z_min + z_max) / 2, -(y_min + y_max) / 2],
+                [0, (z_max - z_min) / 12**0.5, 0],
+                [0, 0, (y_max - y_min) / 12**0.5],
+            ]
+        )
+
         # Compute initial tangent stiffness matrix
         stiffness_tangent, integration_data = (
             self.integrator.integrate_strain_response_on_geometry(
@@ -1658,8 +1673,9 @@ class GenericSectionCalculator(SectionCalculator):
 
             num_iter += 1
 
-            # Check for convergence:
-            if np.linalg.norm(delta_strain) < tol:
+            # Check for convergence: curvatures alone depend on units and size,
+            # their contribution to the strain in the section does not
+            if np.linalg.norm(to_strain @ delta_strain) < tol:
                 break
 
         return strain.tolist()
-- 
2.43.0


From 44e63255d3dd630a80b79179e8c8e4996b342e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 53/58] fix: accuracy of the cracked properties depends on the
 unit of length

---
 structuralcodes/sections/_rc_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index 5d5edf9..d0b1f1a 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -105,7 +105,10 @@ def calculate_elastic_cracked_properties(
     )
     rotated_geometry = elastic_section.geometry
 
-    curv = -1e-5  # Any curvature should return the same mechanical properties.
+    # Any curvature should return the same mechanical properties. Scale with the
+    # size of the section, i.e. the same strains whatever the length unit is.
+    _, _, z_min, z_max = rotated_geometry.calculate_extents()
+    curv = -1e-2 / (z_max - z_min)
     # Find the equilibrium with fixed curvature
     eps = elastic_section.section_calculator.find_equilibrium_fixed_curvature(
         rotated_geometry, 0, curv, 0
-- 
2.43.0


From 2ab9ff18341ebddb97a4c64d6a5d72fa140fe23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 54/58] fix: principal moments of area are complex numbers with
 numpy >= 2.5

---
 structuralcodes/sections/_generic.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4cdacc5..9581907 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -298,11 +298,8 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
-            max_idx = np.argmax(eigres[0])
-            min_idx = 0 if max_idx == 1 else 1
-            i11 = eigres[0][max_idx]
-            i22 = eigres[0][min_idx]
+            # (the matrix is symmetric: the eigenvalues are real and ascending)
+            i22, i11 = np.linalg.eigvalsh(np.array([[iyy, iyz], [iyz, izz]]))
             # The angle from the y axis to the axis with the largest moment
             theta = 0.5 * np.arctan2(-2 * iyz, iyy - izz)
             return i11, i22, theta
-- 
2.43.0


From 4b1507c5519e2be96bc8035ec179aaea76a7fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 55/58] fix: post-yield branch of a moment-curvature relation
 depends on the unit of length

---
 structuralcodes/sections/_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 9581907..90cdbc7 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -984,7 +984,7 @@ class GenericSectionCalculator(SectionCalculator):
                 chi_first = chi_yield / num_pre_yield
 
             # Define the array of curvatures
-            if abs(chi_ultimate) <= abs(chi_yield) + 1e-8:
+            if abs(chi_ultimate) <= abs(chi_yield) * (1 + 1e-6):
                 # We don't want a plastic branch in the analysis
                 # this is done to speed up analysis
                 chi = np.linspace(chi_first, chi_yield, num_pre_yield)
-- 
2.43.0


From b77fd55b6b0a27c5642fb7e53c55ace5990a7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:25 +0000
Subject: [PATCH 56/58] fix: bars exactly filling a length are lost or refused
 by round-off

---
 structuralcodes/geometry/_reinforcement.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 43f63bc..494204a 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -39,6 +39,14 @@ def add_reinforcement(
     return geo + bar
 
 
+def _number_of_intervals(length: float, spacing: float) -> int:
+    """Number of whole intervals in a length, apart from round-off errors."""
+    ratio = length / spacing
+    if math.isclose(ratio, round(ratio)):
+        return round(ratio)
+    return math.floor(ratio)
+
+
 def add_reinforcement_line(
     geo: t.Union[SurfaceGeometry, CompoundGeometry],
     coords_i: t.Tuple[float, float],
@@ -86,7 +94,7 @@ def add_reinforcement_line(
         # Provided both the number of bars and spacing
         # 1. Check the is enough space for fitting the bars
         d = (n - 1) * s
-        if d > distance:
+        if d > distance and not math.isclose(d, distance):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {distance}'
@@ -98,7 +106,7 @@ def add_reinforcement_line(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(distance / s) + 1
+        n = _number_of_intervals(distance, s) + 1
         # 2. Distribute the bars centered in the segment
         d = (n - 1) * s
         p1 = p1 + v * (distance - d) / 2.0
@@ -197,7 +205,7 @@ def add_reinforcement_circle(
         # Check there is enough space for fitting the bars
         n += add_n
         needed_length = (n - 1) * s
-        if needed_length > length:
+        if needed_length > length and not math.isclose(needed_length, length):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {length}'
@@ -212,7 +220,7 @@ def add_reinforcement_circle(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(length / s) + 1
+        n = _number_of_intervals(length, s) + 1
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-- 
2.43.0


From 7e308b1bfc428a4f1fd9f5176c1b93e596f3f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:19 +0000
Subject: [PATCH 57/58] fix: nearly whole circles of bars depend on the unit of
 length

---
 structuralcodes/geometry/_reinforcement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 494204a..80978a1 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -194,7 +194,7 @@ def add_reinforcement_circle(
     length = radius * (stop_angle - start_angle)
 
     # If the whole circle, than deal with the case that would add an extra bar
-    whole = math.isclose(length - 2 * np.pi * radius, 0, abs_tol=1e-4)
+    whole = math.isclose(stop_angle - start_angle, 2 * np.pi)
     add_n = 0 if not whole else 1
 
     # delta_angle is used if we need to center the set of bars
-- 
2.43.0


From ed3a7931be5b3ef6470fe42208406e93ab05add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:06 +0000
Subject: [PATCH 58/58] fix: user defined laws that end at zero strain give nan
 stresses

---
 .../materials/constitutive_laws/_userdefined.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index d81ac0a..1623afe 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -83,12 +83,18 @@ class UserDefined(ConstitutiveLaw):
                 )
                 y = np.append(y, (x[-1] - x[-2]) * tangent_p + self._y[-1])
             elif flag == 3:
-                secant_p = self._y[-1] / self._x[-1]
+                secant_p = (
+                    self._y[-1] / self._x[-1] if self._x[-1] != 0 else 0.0
+                )
                 secant_n = self._y[0] / self._x[0]
                 y = np.insert(
                     self._y, 0, (x[0] - x[1]) * secant_n + self._y[0]
                 )
                 y = np.append(y, (x[-1] - x[-2]) * secant_p + self._y[-1])
+            # A law that ends at zero strain has no range to extend there
+            if x[-1] == x[-2]:
+                x = x[:-1]
+                y = y[:-1]
             self._x = x
             self._y = y
 
-- 
2.43.0

