From ece9bdea8cfbe59684ac9bd84e5b2f0709250ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 01/38] fix: apply the phase screen gradient with the same sign
 for rays travelling either way

The screen value is always added to the ray time, so the tangential
direction cosines must always gain its gradient; for rays with a positive
normal component it was subtracted, leaving the rays not normal to their
wavefront.
---
 src/batoid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..9b7707f 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,13 +800,11 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
+                    cos1 += dPd1;
+                    cos2 += dPd2;
                     if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
                         cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
 
-- 
2.43.0


From 4f02a16cfdab5a39f4e926711c85011910666461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 02/38] fix: intersect rays that start on a sphere, quadric or
 paraboloid

The second root was computed as c/(a*dt1), which is 0/0 when the ray is
already on the surface (c == 0): quadrics returned NaN positions without
failing the ray, spheres could pick the wrong root.
---
 src/paraboloid.cpp | 14 +++++++++-----
 src/quadric.cpp    | 13 +++++++++----
 src/sphere.cpp     | 13 +++++++++----
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..9ef9778 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -43,8 +43,6 @@ namespace batoid {
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
-
         if (a == 0) {
             // Ray is heading straight at optic axis.
             dt = -c/b;
@@ -56,12 +54,18 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
+        // Compute both roots from q so that neither is 0/0 when c == 0 (ray
+        // already on the surface).
+        double dt1, dt2;
         if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+            double q = (-b - sqrt(discriminant)) / 2;
+            dt1 = q/a;
+            dt2 = c/q;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = (-b + sqrt(discriminant)) / 2;
+            dt2 = q/a;
+            dt1 = (q == 0) ? dt2 : c/q;
         }
-        double dt2 = c / (a*dt1);
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..c8459e9 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -55,13 +55,18 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
+        // Compute both roots from q so that neither is 0/0 when c == 0 (ray
+        // already on the surface).
+        double dt1, dt2;
         if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+            double q = (-b - sqrt(discriminant)) / 2;
+            dt1 = q/a;
+            dt2 = c/q;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = (-b + sqrt(discriminant)) / 2;
+            dt2 = q/a;
+            dt1 = (q == 0) ? dt2 : c/q;
         }
-        double dt2 = c / (a*dt1);
 
         // New strategy, just always pick smaller abs(z).
         double z1 = z + vz*dt1;
diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..06d1fb6 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -53,13 +53,18 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
+        // Compute both roots from q so that neither is 0/0 when c == 0 (ray
+        // already on the surface).
+        double dt1, dt2;
         if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+            double q = (-b - sqrt(discriminant)) / 2;
+            dt1 = q/a;
+            dt2 = c/q;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = (-b + sqrt(discriminant)) / 2;
+            dt2 = q/a;
+            dt1 = (q == 0) ? dt2 : c/q;
         }
-        double dt2 = c / (a*dt1);
 
         // If vz < 0, R > 0, want greatest time.
         dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
-- 
2.43.0


From 21d8ca26624f187f7cd43c9eb67efb9b00f494c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 03/38] fix: intersect rays with quadrics whose conic constant
 is -1

The coefficients were divided by 1+conic, so every ray got NaN coordinates
(without being failed) on Quadric, and every ray failed on Asphere, when
conic == -1.
---
 include/quadric.h |  3 ---
 src/quadric.cpp   | 12 ++++++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/quadric.h b/include/quadric.h
index 0462677..05b85d3 100644
--- a/include/quadric.h
+++ b/include/quadric.h
@@ -37,9 +37,6 @@ namespace batoid {
         const double _Rsq;  // R*R
         const double _Rinvsq;  // 1/R/R
         const double _cp1; // 1 + conic
-        const double _cp1inv; // 1/(1 + conic)
-        const double _Rcp1; // R/(1+conic)
-        const double _RRcp1cp1; // R*R/(1+conic)/(1+conic)
         const double _cp1RR; // (1+conic)/R/R
     };
 
diff --git a/src/quadric.cpp b/src/quadric.cpp
index c8459e9..8584e03 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -9,8 +9,7 @@ namespace batoid {
     Quadric::Quadric(double R, double conic) :
         _R(R), _conic(conic),
         _Rsq(R*R), _Rinvsq(1./R/R),
-        _cp1(conic+1), _cp1inv(1./_cp1),
-        _Rcp1(R/_cp1), _RRcp1cp1(R*R/_cp1/_cp1),
+        _cp1(conic+1),
         _cp1RR(_cp1/R/R) {}
 
     Quadric::~Quadric() {}
@@ -43,12 +42,13 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
         double vrr0 = vx*x + vy*y;
 
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Coefficients for x^2 + y^2 - 2 R z + (1+conic) z^2 = 0, which is
+        // also regular for conic == -1.
+        double a = _cp1*vz*vz + vx*vx + vy*vy;
+        double b = 2*(vz*(_cp1*z-_R) + vrr0);
+        double c = z*(_cp1*z-2*_R) + x*x + y*y;
 
         double discriminant = b*b - 4*a*c;
 
-- 
2.43.0


From b3387c33b6fb8264a99d94c8a7e3e914759648e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 04/38] fix: evaluate polygons correctly on grids

containsGrid ignored the closing edge of the polygon, crossed at most one
edge per grid point and indexed its (ny, nx) output with the wrong stride,
writing out of bounds when ny > nx.
---
 src/obscuration.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..eb8a010 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -275,13 +275,11 @@ namespace batoid {
             bool contained = false;
             auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
+                while (xptr != xinters.end() && xgrid[i] > *xptr) {
+                    contained = !contained;
+                    xptr++;
                 }
-                out[j*ny+i] = contained;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From 88f56f5331333615ac929293245192c168780c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 05/38] fix: do not read past the end of a TableMedium at its
 last wavelength

At the last tabulated wavelength the search loop ended with the index one
past the table.
---
 src/medium.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..36c730b 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -93,7 +93,7 @@ namespace batoid {
             if (wavelength > _args[_size-1])
                 return NAN;
             int upperIdx;
-            for(upperIdx=1; upperIdx<_size; upperIdx++) {
+            for(upperIdx=1; upperIdx<_size-1; upperIdx++) {
                 if (wavelength < _args[upperIdx])
                     break;
             }
-- 
2.43.0


From b1b70c2350c8d616788b63fcae26202ca5239a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 06/38] fix: compare ray vectors by type, length, all data and
 coordinate system

Comparing bundles of different lengths read out of bounds or called a
prefix equal, the coordinate system was ignored, and comparing with another
type raised.
---
 batoid/rayVector.py | 8 ++++++--
 src/dualView.cpp    | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..b052b56 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1290,10 +1290,14 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        return (
+            type(self) == type(rhs)
+            and self._rv == rhs._rv
+            and self.coordSys == rhs.coordSys
+        )
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
diff --git a/src/dualView.cpp b/src/dualView.cpp
index 5084d0a..ec032f5 100644
--- a/src/dualView.cpp
+++ b/src/dualView.cpp
@@ -49,6 +49,8 @@ namespace batoid {
     bool DualView<T>::operator==(const DualView<T>& rhs) const {
         // If both DualViews are currently synced to Device, do the comparison there.
         // Otherwise, copy to host and do comparison there.
+        if (size != rhs.size)
+            return false;
         bool result{true};
         if (syncState == SyncState::host && rhs.syncState == SyncState::host) {
             for(size_t i=0; i<size; i++) result &= data[i] == rhs.data[i];
-- 
2.43.0


From 3cd3b829288686e25ee84f3d703333b40f8a6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 07/38] fix: negative and numpy integer indices of RayVector
 select one ray

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index b052b56..6a27d13 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1322,7 +1322,7 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1334,7 +1334,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 8b7753cf5d6ad9800e9312c4226ba46dd1b9b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 08/38] fix: always hand ray factory fluxes to C++ as one
 float64 per ray

asSpokes with its default flux produced an int64 array, and sequences or
arrays of another dtype or length were passed on as they were.
---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 6a27d13..cfdc442 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -818,8 +818,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float, order='C')
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From 61ab2e6ccc17bfb86366b171a7c3f5aea314a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 09/38] fix: fromStop no longer modifies the x and y arrays it
 is given

Float arrays were transformed in place (and became part of the returned
RayVector); strided or mismatched arrays were read out of bounds.
---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index cfdc442..39369b4 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -966,8 +966,9 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        x, y = np.broadcast_arrays(np.atleast_1d(x), y)
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From 37ae948875036f9886f71c90557d04a0f5f459c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 10/38] fix: give TableMedium float64 tables of equal length

Integer sequences were handed to C++ as int64 and read as doubles; a short
ns was read out of bounds.
---
 batoid/medium.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..eb275e1 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,10 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order="C")
+        self.ns = np.array(ns, dtype=float, order="C")
+        if self.wavelengths.shape != self.ns.shape:
+            raise ValueError("wavelengths and ns must have the same length")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
-- 
2.43.0


From d7892f0144cfb3c6a922d9d8985b2f261367d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 11/38] fix: validate and copy the arrays of ObscPolygon

Vertices aliased the caller's arrays, vertex lists of different lengths were
read out of bounds, polygons with different numbers of vertices could not be
compared, and grids of another dtype or stride were misread.
---
 batoid/obscuration.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..66246b1 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,10 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order="C")
+        self.ys = np.array(ys, dtype=float, order="C")
+        if self.xs.shape != self.ys.shape:
+            raise ValueError("xs and ys must have the same length")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
@@ -268,8 +270,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
@@ -290,6 +292,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
-- 
2.43.0


From 63abef8dc201f488ac7fea23465ab5923ae3b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 12/38] fix: give Asphere its own float64 coefficients

With imin=1 integer coefficients were handed to C++ as int64 and arrays were
aliased, as was the coefs attribute used for comparison and pickling.
---
 batoid/surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..b127a4b 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -378,7 +379,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
@@ -393,7 +394,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.array(padded_coefs, dtype=float, order="C")
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 3d16775914d5ec95383ccb697ed870f69c136d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 13/38] fix: equal Bicubic surfaces hash equal whatever the
 case of nanpolicy

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index b127a4b..47ed060 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -612,7 +612,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From 54495ef950b229d519d2e44ca9769cc5de856934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 14/38] fix: signs of reciprocal lattice vectors of
 non-orthogonal lattices

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From 4b7589ebb2fc1930371a76a1b60754797f711ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 15/38] fix: fftPSF with odd nx

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From 09d6b10905bd10d21b4db3cab4ef2b696df4340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 16/38] fix: honour the skip argument of optics

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From df8ea34480a35175a702b54023d94eb8da23c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 17/38] fix: keep the coatings an interface is given, also
 through with* methods

---
 batoid/optic.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..69293d1 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -762,12 +762,12 @@ class RefractiveInterface(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.forwardCoating = kwargs.get('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.reverseCoating = kwargs.get('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -800,12 +800,12 @@ class Mirror(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.forwardCoating = kwargs.get('forwardCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.reverseCoating = kwargs.get('reverseCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
+        ))
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -828,10 +828,10 @@ class Detector(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.forwardCoating = kwargs.get('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        ))
+        self.reverseCoating = kwargs.get('reverseCoating', None)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -849,12 +849,12 @@ class Baffle(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.forwardCoating = kwargs.get('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.reverseCoating = kwargs.get('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 1319f85a5759b938de85e9f79f0eca278c3d10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 18/38] fix: do not confuse an item with one whose name is a
 prefix of its name

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 69293d1..3b36cb8 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1437,7 +1437,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name + '.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1600,7 +1600,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name + '.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1648,7 +1648,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name + '.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 87d8ad3cb5baf74ca15ce2c78dba9224e582abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 19/38] fix: split rays at an OPDScreen

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b36cb8..8fc4a1c 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -923,7 +923,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From e79e8dd4509ba3aa7e945f23c69b41fcba87e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 20/38] fix: rotate the stop surface with its interface in
 withLocalRotation

---
 batoid/optic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 8fc4a1c..e5ceb56 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -681,8 +681,9 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # same rigid motion, about our own axes
+            newDict['stopSurface'] = newDict['stopSurface'].withGlobalRotation(
+                self.coordSys.rot@rot@self.coordSys.rot.T, rotCenter, coordSys
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From ed31dfddcb211c4bef6e51a41e3ce6a754786e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 21/38] fix: traceSplit through skipped items

---
 batoid/optic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index e5ceb56..b6a5886 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -504,9 +504,9 @@ class Interface(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1226,9 +1226,9 @@ class CompoundOptic(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
@@ -1260,7 +1260,8 @@ class CompoundOptic(Optic):
                         rr.vignetted[w], rr.failed[w],
                         rr.coordSys
                     )
-                    rList[i].path = rr.path
+                    # rays that only met skipped items have no path yet
+                    rList[i].path = getattr(rr, 'path', [])
 
             for rr in rForward:
                 if len(rr) > 0:
-- 
2.43.0


From fa916d75d77db3550f27dcd2a81c194419b2ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 22/38] fix: insert and remove items at any depth of a
 CompoundOptic

---
 batoid/optic.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index b6a5886..6122b96 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1705,18 +1705,23 @@ class CompoundOptic(Optic):
         before = self._names.get(before, before)
         if before not in self.itemDict:
             raise ValueError("Optic {} not found".format(before))
+        if before == self.name:
+            raise ValueError("Cannot insert before {}".format(before))
+        before = before[len(self.name)+1:]
         newItems = []
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
-        for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+        for it in self.items:
+            if before == it.name:
                 newItems.append(item)
+            elif before.startswith(it.name + '.'):
+                it = it.withInsertedOptic(before, item)
             newItems.append(it)
-        return self.__class__(
-            newItems,
-            **newDict
-        )
+        # A Lens may pass through states with other than two items.
+        ret = self.__class__.__new__(self.__class__)
+        CompoundOptic.__init__(ret, newItems, **newDict)
+        return ret
 
     def withRemovedOptic(self, item):
         """Return a new `CompoundOptic` with the given subitem removed.
@@ -1734,17 +1739,23 @@ class CompoundOptic(Optic):
         item = self._names.get(item, item)
         if item not in self.itemDict:
             raise ValueError("Optic {} not found".format(item))
+        if item == self.name:
+            raise ValueError("Cannot remove {}".format(item))
+        item = item[len(self.name)+1:]
         newItems = []
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
-                newItems.append(it)
-        return self.__class__(
-            newItems,
-            **newDict
-        )
+            if item == it.name:
+                continue
+            if item.startswith(it.name + '.'):
+                it = it.withRemovedOptic(item)
+            newItems.append(it)
+        # A Lens may pass through states with other than two items.
+        ret = self.__class__.__new__(self.__class__)
+        CompoundOptic.__init__(ret, newItems, **newDict)
+        return ret
 
 
 class Lens(CompoundOptic):
-- 
2.43.0


From 0ef295a4a3b5314b53f62fa8eb3506ca7b4badb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 23/38] fix: compare and print the skip flag of optics

---
 batoid/optic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 6122b96..d80ea07 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -54,6 +54,8 @@ class Optic:
             out += ", inMedium={!r}".format(self.inMedium)
         if self.outMedium != vacuum:
             out += ", outMedium={!r}".format(self.outMedium)
+        if self.skip:
+            out += ", skip={!r}".format(self.skip)
         return out
 
     @classmethod
@@ -554,7 +556,8 @@ class Interface(Optic):
             self.name == other.name and
             self.inMedium == other.inMedium and
             self.outMedium == other.outMedium and
-            self.coordSys == other.coordSys
+            self.coordSys == other.coordSys and
+            self.skip == other.skip
         )
 
     def __ne__(self, other):
@@ -1339,7 +1342,8 @@ class CompoundOptic(Optic):
                 self.name == other.name and
                 self.inMedium == other.inMedium and
                 self.outMedium == other.outMedium and
-                self.coordSys == other.coordSys)
+                self.coordSys == other.coordSys and
+                self.skip == other.skip)
 
     def __ne__(self, other):
         return not (self == other)
-- 
2.43.0


From cc7acab8966aea9b12f410b5b34f28cf05f5306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 24/38] fix: express concatenated ray vectors in one coordinate
 system

---
 batoid/rayVector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 39369b4..7ff762a 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1353,6 +1353,11 @@ class RayVector:
         )
 
 def concatenateRayVectors(rvs):
+    coordSys = rvs[0].coordSys
+    rvs = [
+        rv if rv.coordSys == coordSys else rv.copy().toCoordSys(coordSys)
+        for rv in rvs
+    ]
     return RayVector(
         np.hstack([rv.x for rv in rvs]),
         np.hstack([rv.y for rv in rvs]),
@@ -1365,5 +1370,5 @@ def concatenateRayVectors(rvs):
         np.hstack([rv.flux for rv in rvs]),
         np.hstack([rv.vignetted for rv in rvs]),
         np.hstack([rv.failed for rv in rvs]),
-        rvs[0].coordSys
+        coordSys
     )
-- 
2.43.0


From 620d55bb143011ba8ba6e6cf4cfcdd3ca153934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 25/38] fix: keep the native plane when pickling with protocols
 0 and 1

---
 batoid/surface.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 47ed060..5c2d05b 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -175,11 +175,8 @@ class Plane(Surface):
     def __hash__(self):
         return hash("batoid.Plane")
 
-    def __setstate__(self, tup):
-        self.__init__()
-
-    def __getstate__(self):
-        return ()
+    def __reduce__(self):
+        return (Plane, ())
 
     def __eq__(self, rhs):
         return isinstance(rhs, Plane)
-- 
2.43.0


From 484e4d673bb7548fe8d99b9e42b94aae8685add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 26/38] fix: accept a number of spokes together with an array
 of rings in asSpokes

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 7ff762a..e4ada29 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -792,8 +792,8 @@ class RayVector:
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
                 flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From 92de511a33fd4ee05b93ae61c660b3737f2712fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 27/38] fix: weight Gaussian quadrature rings by the number of
 spokes when their angles are given

---
 batoid/rayVector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e4ada29..3da46bb 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -791,7 +791,8 @@ class RayVector:
                 eps = inner/outer
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
-                flux = w*area/(2*spokes)
+                nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
+                flux = w*area/(2*nspokes)
         if isinstance(spokes, Integral):
             spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
-- 
2.43.0


From a5f65e02ca824abbb4c96d8e8291a423e0cd3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 28/38] fix: infer the second grid spacing of asGrid by
 rotating the first, as documented

---
 batoid/rayVector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 3da46bb..1f407aa 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -371,7 +371,10 @@ class RayVector:
         if nx is not None and ny is None:
             ny = nx
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
-- 
2.43.0


From ec9eb327945d98b963a94002d6f49244edca85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 29/38] fix: let asFan create a single fan when only one of nx
 and ny is given

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 1f407aa..724d883 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -453,9 +453,9 @@ class RayVector:
         **kwargs
     ):
         rvs = []
-        if nx > 1:
+        if nx is not None and nx > 1:
             rvs.append(RayVector.asGrid(nx=nx, ny=1, **kwargs))
-        if ny > 1:
+        if ny is not None and ny > 1:
             rvs.append(RayVector.asGrid(nx=1, ny=ny, **kwargs))
         return concatenateRayVectors(rvs)
 
-- 
2.43.0


From 36d874c577198dd3bbb7c16b2916abb70e41976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 30/38] fix: use the vectors lx and ly of asGrid as the
 primitive vectors of the grid

---
 batoid/rayVector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 724d883..ae38353 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -431,10 +431,9 @@ class RayVector:
             xx, yy = np.meshgrid(xx, yy)
             xx = xx.ravel()
             yy = yy.ravel()
-        stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
-        del xx, yy, stack
+        x = lx[0]*xx + ly[0]*yy
+        y = lx[1]*xx + ly[1]*yy
+        del xx, yy
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From 6d8df86f51017645592c1900e480818c03a2408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 31/38] fix: zernikeGQ chief ray frame for optics away from the
 global origin

---
 batoid/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 92fc6cd..03682ec 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -672,10 +672,8 @@ def zernikeGQ(
     elif reference == 'chief':
         chiefRay = batoid.RayVector.fromStop(
             0.0, 0.0,
-            backDist=optic.backDist, wavelength=wavelength,
-            dirCos=dirCos,
-            medium=optic.inMedium,
-            stopSurface=optic.stopSurface
+            optic=optic, wavelength=wavelength,
+            dirCos=dirCos
         )
         optic.trace(chiefRay)
         point = chiefRay.r[0]
-- 
2.43.0


From 63ded601a89519b6c48126e45a0fad233958d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 32/38] fix: parsing a configuration consumed the caller's
 dictionaries

---
 batoid/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..1cbad7d 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,7 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    config = dict(**config)  # leave the caller's dict alone
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +27,7 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    config = dict(**config)  # leave the caller's dict alone
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +98,7 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    config = dict(**config)  # leave the caller's dict alone
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From 7afa30269c99f15aa0683a33df3ba5c500e29828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 33/38] fix: parsing an Interface dropped its obscuration and
 media

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index 1cbad7d..963dc94 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -211,7 +211,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 4860e57860dcdf88c3bb323ca83d085f4661a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 34/38] fix: asSpokes handed single-precision rings and spokes
 to native code

---
 batoid/rayVector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index ae38353..71380ec 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -797,7 +797,9 @@ class RayVector:
                 flux = w*area/(2*nspokes)
         if isinstance(spokes, Integral):
             spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
-        rings, spokes = np.meshgrid(rings, spokes)
+        rings, spokes = np.meshgrid(
+            np.asarray(rings, dtype=float), np.asarray(spokes, dtype=float)
+        )
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
         spokes = spokes.ravel()
-- 
2.43.0


From 2d77c84d23ddafa03660becb795cbf05328fba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 35/38] fix: RayVector.fromStop ignored rows of 2-d stop
 coordinates

---
 batoid/rayVector.py | 8 ++++----
 batoid/trace.py     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 71380ec..1adeea1 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -836,14 +836,14 @@ class RayVector:
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
                 x.ctypes.data, y.ctypes.data, z.ctypes.data,
-                len(x)
+                x.size
             )
             vx = np.full_like(x, vv[0])
             vy = np.full_like(y, vv[1])
             vz = np.full_like(z, vv[2])
-            t = np.zeros(len(x), dtype=float)
-            vignetted = np.zeros(len(x), dtype=bool)
-            failed = np.zeros(len(x), dtype=bool)
+            t = np.zeros(x.shape, dtype=float)
+            vignetted = np.zeros(x.shape, dtype=bool)
+            failed = np.zeros(x.shape, dtype=bool)
             return RayVector._directInit(
                 x, y, z, vx, vy, vz, t, w,
                 flux, vignetted, failed, coordSys
diff --git a/batoid/trace.py b/batoid/trace.py
index 5df1532..4b6d645 100644
--- a/batoid/trace.py
+++ b/batoid/trace.py
@@ -25,7 +25,7 @@ def applyForwardTransformArrays(ct, x, y, z):
     _batoid.applyForwardTransformArrays(
         ct.dr, ct.drot.ravel(),
         x.ctypes.data, y.ctypes.data, z.ctypes.data,
-        len(x), _batoid_max_threads
+        x.size, _batoid_max_threads
     )
 
 
@@ -34,7 +34,7 @@ def applyReverseTransformArrays(ct, x, y, z):
     _batoid.applyReverseTransformArrays(
         ct.dr, ct.drot.ravel(),
         x.ctypes.data, y.ctypes.data, z.ctypes.data,
-        len(x), _batoid_max_threads
+        x.size, _batoid_max_threads
     )
 
 
-- 
2.43.0


From d35901e807ba38a9d2fdad59f20750e4ea14eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 36/38] fix: Surface.normal read past the end of a y shorter
 than x

---
 batoid/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/surface.py b/batoid/surface.py
index 5c2d05b..21e8593 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -41,6 +41,8 @@ class Surface(ABC):
         """
         xx = np.asfortranarray(x, dtype=float)
         yy = np.asfortranarray(y, dtype=float)
+        if xx.shape != yy.shape:
+            raise ValueError("x and y must have the same shape")
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
         size = len(xx.ravel())
 
-- 
2.43.0


From 74de9ab03ce09f3c8f05ddf97f1c29d0298499bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 37/38] fix: multi-dimensional RayVector exposed only its first
 rows to native code

---
 batoid/rayVector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 1adeea1..2470506 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -126,9 +126,9 @@ class RayVector:
             Positions in meters.
         """
         from .global_vars import _batoid_max_threads
-        x = np.empty(len(self._x))
-        y = np.empty(len(self._x))
-        z = np.empty(len(self._x))
+        x = np.empty(self._x.shape)
+        y = np.empty(self._y.shape)
+        z = np.empty(self._z.shape)
         self._rv.positionAtTime(
             t,
             x.ctypes.data, y.ctypes.data, z.ctypes.data,
@@ -1224,7 +1224,7 @@ class RayVector:
             self._t.ctypes.data,
             self._wavelength.ctypes.data, self._flux.ctypes.data,
             self._vignetted.ctypes.data, self._failed.ctypes.data,
-            len(self._wavelength)
+            self._wavelength.size
         )
 
     def _syncToHost(self):
-- 
2.43.0


From a26338cd99dd733219a97cd0ee97bff2ea0f8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 38/38] fix: rSplit marked the split bundle current on the
 device without copying it there

---
 src/batoid.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 9b7707f..9fd263c 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -526,17 +526,17 @@ namespace batoid {
         rv.flux.syncToDevice();
         rv.vignetted.syncToDevice();
         rv.failed.syncToDevice();
-        rvSplit.x.syncState = SyncState::device;
-        rvSplit.y.syncState = SyncState::device;
-        rvSplit.z.syncState = SyncState::device;
-        rvSplit.vx.syncState = SyncState::device;
-        rvSplit.vy.syncState = SyncState::device;
-        rvSplit.vz.syncState = SyncState::device;
-        rvSplit.t.syncState = SyncState::device;
-        rvSplit.wavelength.syncState = SyncState::device;
-        rvSplit.flux.syncState = SyncState::device;
-        rvSplit.vignetted.syncState = SyncState::device;
-        rvSplit.failed.syncState = SyncState::device;
+        rvSplit.x.syncToDevice();
+        rvSplit.y.syncToDevice();
+        rvSplit.z.syncToDevice();
+        rvSplit.vx.syncToDevice();
+        rvSplit.vy.syncToDevice();
+        rvSplit.vz.syncToDevice();
+        rvSplit.t.syncToDevice();
+        rvSplit.wavelength.syncToDevice();
+        rvSplit.flux.syncToDevice();
+        rvSplit.vignetted.syncToDevice();
+        rvSplit.failed.syncToDevice();
 
         // Original RayVector will get replaced with refraction
         size_t size = rv.size;
-- 
2.43.0

