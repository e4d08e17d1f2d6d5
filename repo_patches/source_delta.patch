From 29242910e65a2df4bf38f339a3dffecec7eaa7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 01/20] fix: Box.random_points_on_surface of a rotated or
 translated box, and of one point

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..0977d53 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From 00228c2299f386752d26e09cbc5a820f1c541b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 02/20] fix: rotation direction in
 Ellipsoid.random_points_on_surface

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..e23210d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 57477f9eb425980a383eec80490177c2ff2c6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 03/20] fix: mbe_of_points(sphere=True) clobbered its reference
 point

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e23210d..544737d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -706,8 +706,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From 0dd25337a1a12ce566d522b73a546d1048ccbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 04/20] fix: Box.mbe(sphere=True) is the smallest bounding
 sphere

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0977d53..35e173d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -334,7 +334,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From f4d1f3346fc091535b71718ea0dbd82d3197df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 05/20] fix: Ellipsoid.mbe accepts the solver argument like
 every other shape

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 544737d..118bcfe 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -415,7 +415,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From d1dd6399ae8e33dfa931f8798dab6c378f3e5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 06/20] fix: Cylinder.is_same accepts tol, so that
 Capsule.is_same works

---
 src/rigeo/shape/cylinder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..9a4af2d 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,14 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(self.rotation, other.rotation, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From d42d7dae023eaa44e54185b62eee6d605cf9f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 07/20] fix: Cylinder.contains honours tol

---
 src/rigeo/shape/cylinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 9a4af2d..7004374 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,8 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [E.contains(P, tol=tol) for E, P in zip(self._ellipsoids, (P1, P2))],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 2df1b18d91e0d71b7f56d6ee36b4bb2721ac1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 08/20] fix: transform_matrix_inv in dimensions other than
 three

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From 74895dfc9dd6b5fc93a89a7ffe41a5b151a78aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 09/20] fix: massless inertial parameters have a finite (zero)
 centre of mass

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..ffd66f9 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,7 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or (mass == 0 and not np.any(h)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From 52cd3b03829e295261554428f36a9f56eef2c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 10/20] fix: random_points_in_ball in one dimension

---
 src/rigeo/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..a0157a0 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
-- 
2.43.0


From 5927c0d0d6c46c6e288a43bdee049df477eff351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 11/20] fix: Ellipsoid.is_same of degenerate ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 118bcfe..4d657e3 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -245,7 +245,9 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        return np.allclose(self.E, other.E, atol=tol) and np.allclose(
+            self.center, other.center, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From 73beeb441b5f54cc680a114c22903ad433ca7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 12/20] fix: Cylinder.moment_custom_vertex_constraints was
 infeasible for eps > 0

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 7004374..44cc6c5 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -180,7 +180,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From b3a61d12afe3011c914686954214fbdf952e42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 13/20] fix: moment_sdp_constraints enforce symmetry and the
 eps margin

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 44cc6c5..b9c41ec 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -158,7 +158,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 9fa8c0d64f90ed0b561f5257271ee668079afaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 14/20] fix: is_triangular_number for large integers

---
 src/rigeo/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..0815c89 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -1,5 +1,6 @@
 """Miscellaneous utility functions."""
 import itertools
+import math
 import numbers
 from pathlib import Path
 
@@ -51,9 +52,10 @@ def is_triangular_number(x):
     if not (isinstance(x, numbers.Integral) or x.is_integer()) or x < 1:
         return False, -1
 
-    # use quadratic formula to solve
-    n = 0.5 * (np.sqrt(1 + 8 * x) - 1)
-    return n.is_integer(), int(n)
+    # use quadratic formula to solve, in exact integer arithmetic
+    x = int(x)
+    n = (math.isqrt(1 + 8 * x) - 1) // 2
+    return n * (n + 1) // 2 == x, n
 
 
 def unvech(a):
-- 
2.43.0


From e4f2bd2859ccbb69205047c6dbc2e0a4bac6a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 15/20] fix: Ellipsoid.contains_ellipsoid used the wrong
 quadratic form of the other ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 4d657e3..4882be1 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -550,8 +550,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 4e2c5cddd85ba85e96ac1f10502e188b625ac66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 16/20] fix: mbe_of_ellipsoids used the wrong quadratic form of
 the bounded ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 4882be1..2cf6738 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -612,10 +612,13 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, E, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+    # E = {x | x.T @ Ai @ x + 2 * bi @ x + ci <= 0}
+    Ai = E.S
+    bi = E.A @ E.b
+    ci = E.b @ E.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -656,7 +659,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From b1bef73b3063252bf181b1244555388d9dc95311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 17/20] fix: SpanForm.transform must not translate rays

---
 src/rigeo/polydd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..5af9076 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,7 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From efec4aa2610a46d578f544bc61eb70c4d63c1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 18/20] fix: Ellipsoid.from_affine with a non-symmetric matrix

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 2cf6738..a524a60 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -146,7 +146,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From 5e5f91436d5a8ff5efbe938b6d458b0a989b69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 19/20] fix: keep the dimension axis when sampling a single
 point in one dimension

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 src/rigeo/shape/poly.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index a524a60..8e922e1 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -508,7 +508,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 92dfa58..f9acca9 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -187,7 +187,7 @@ class ConvexPolyhedron(Shape):
         w = random_weight_vectors(full_shape, rng=rng)
         points = w @ self.vertices
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points
 
     def aabb(self):
-- 
2.43.0


From dbb8ef4636ad27194f45a4daf8b07d89482901cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 20/20] fix: FaceForm.from_cdd_matrix of a matrix without
 inequality rows

---
 src/rigeo/polydd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 5af9076..1573831 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -196,14 +196,20 @@ class FaceForm:
         mat : cdd.Matrix
             The CDD matrix representing the polyhedron.
         """
+        if mat.row_size == 0:
+            # no constraints: the whole space, represented by 0 @ x <= 1
+            dim = mat.col_size - 1
+            return cls(A_ineq=np.zeros((1, dim)), b_ineq=np.ones(1))
+
         M = np.array([mat[i] for i in range(mat.row_size)])
         b = M[:, 0]
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
-- 
2.43.0

