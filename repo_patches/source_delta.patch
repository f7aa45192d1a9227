From 45bcedccdfaedb00103faeb735a4ad52eba0b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 01/41] fix: massless inertial parameters have a zero CoM
 instead of NaN

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..ffd66f9 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,7 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or (mass == 0 and not np.any(h)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From c3fdcadc28908bfd6d4e03ee077f9668c2ac6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 02/41] fix: transform_matrix_inv honours dim

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From 7a88811c1ea093c85caa5311f584572a89ef0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 03/41] fix: Cylinder.contains honours the tolerance

---
 src/rigeo/shape/cylinder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..eb2288a 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,11 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [
+                E.contains(P, tol=tol)
+                for E, P in zip(self._ellipsoids, (P1, P2))
+            ],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 829544bca2ba4ede2564659d3bb76bc7c27e8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 04/41] fix: polyhedron is_same is symmetric between boxes and
 general polyhedra

---
 src/rigeo/shape/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..67109ab 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -170,7 +170,8 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, self.__class__):
+        # boxes are convex polyhedra too
+        if not isinstance(other, ConvexPolyhedron) or self.dim != other.dim:
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From 2acef19b2e1e6d790c1893ef051f1dfbc2f575a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 05/41] fix: Ellipsoid.is_same handles degenerate ellipsoids
 and other dimensions

---
 src/rigeo/shape/ellipsoid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..2a98f7a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -243,9 +243,16 @@ class Ellipsoid(Shape):
 
     def is_same(self, other, tol=1e-8):
         """Check if this ellipsoid is the same as another."""
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, self.__class__) or self.dim != other.dim:
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+
+        # compare the (unique) PSD matrices that map the unit ball to each
+        # ellipsoid, which unlike Q also exist for degenerate ellipsoids
+        B1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
+        B2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T
+        return np.allclose(self.center, other.center, atol=tol) and np.allclose(
+            B1, B2, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From 1b7e6fad08cbf98cf8107e1830b1446f2a0ad9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 06/41] fix: Cylinder/Capsule is_same takes a tolerance and
 compares point sets

---
 src/rigeo/shape/capsule.py  |  7 ++++++-
 src/rigeo/shape/cylinder.py | 21 ++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/rigeo/shape/capsule.py b/src/rigeo/shape/capsule.py
index c22ecaf..68e42ee 100644
--- a/src/rigeo/shape/capsule.py
+++ b/src/rigeo/shape/capsule.py
@@ -48,7 +48,12 @@ class Capsule(Shape):
     def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
-        return self.cylinder.is_same(other.cylinder, tol=tol)
+        # the endpoints (in either order) and radius determine the capsule
+        ends = other.cylinder.endpoints()
+        return np.isclose(self.radius, other.radius, atol=tol) and any(
+            np.allclose(self.cylinder.endpoints(), e, atol=tol)
+            for e in (ends, ends[::-1])
+        )
 
     def contains(self, points, tol=1e-8):
         contains = [shape.contains(points, tol=tol) for shape in self._shapes]
diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index eb2288a..9fe6838 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,15 +109,22 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
-        return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
-        )
+        if not (
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+        ):
+            return False
+
+        # only the direction of the longitudinal axis matters (up to its sign)
+        # unless the cylinder is just a point
+        P1 = np.outer(self.longitudinal_axis, self.longitudinal_axis)
+        P2 = np.outer(other.longitudinal_axis, other.longitudinal_axis)
+        s = max(self.length, self.radius)
+        return np.allclose(s * P1, s * P2, atol=tol)
 
     def contains(self, points, tol=1e-8):
         P1 = points @ self.longitudinal_axis[:, None]
-- 
2.43.0


From 72982f3c3ca507f043d0b3456ecc21a4c8594a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 07/41] fix: Ellipsoid.mbe accepts the solver argument of
 Shape.mbe

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 2a98f7a..4e36941 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -422,7 +422,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From 2f32be774826fea3b4443ab2d3f9a857eda0ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 08/41] fix: Box.mbe(sphere=True) is the minimum bounding
 sphere

---
 src/rigeo/shape/box.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..3e71e38 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -332,10 +332,11 @@ class Box(ConvexPolyhedron):
     def mbe(self, rcond=None, sphere=False, solver=None):
         from .ellipsoid import Ellipsoid
 
-        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            # the minimum bounding sphere passes through the vertices
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
+        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         return Ellipsoid(
             half_extents=half_extents,
             center=self.center,
-- 
2.43.0


From 8cc87b5c06f089eb0ba7645fe917b213ace9cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 09/41] fix: bounding/inscribed ellipsoid of a single point

---
 src/rigeo/shape/ellipsoid.py | 4 ++++
 src/rigeo/shape/poly.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 4e36941..d412f64 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -700,6 +700,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     R = orth((points - r).T, rcond=rcond)
     rank = R.shape[1]
 
+    # all points are the same: the ellipsoid is just that point
+    if rank == 0:
+        return Ellipsoid(half_extents=np.zeros(points.shape[1]), center=r)
+
     # project onto the rowspace
     # this allows us to handle degenerate sets of points that live in a
     # lower-dimensional subspace than R^d
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 67109ab..1635864 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -217,6 +217,10 @@ class ConvexPolyhedron(Shape):
         R = orth((self.vertices - r).T, rcond=rcond)
         rank = R.shape[1]
 
+        # the polyhedron is a single point
+        if rank == 0:
+            return Ellipsoid(half_extents=np.zeros(self.dim), center=r)
+
         # project onto the rowspace
         # this allows us to handle degenerate sets of points that live in a
         # lower-dimensional subspace than R^d
-- 
2.43.0


From 0958abb0fc9842ce1a0dbf673b67abfddd42ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 10/41] fix: mbe_of_points(sphere=True) no longer loses the
 offset of the points

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index d412f64..d4c6673 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -717,8 +717,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From 2c92132acfcf6bd8fa0fe4bd386e95fc50a0fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 11/41] fix: Ellipsoid.contains_ellipsoid uses the quadratic
 form of the other ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index d4c6673..94d1be5 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -550,13 +550,14 @@ class Ellipsoid(Shape):
     def contains_ellipsoid(self, other, solver=None):
         # See Boyd and Vandenberghe pp. 411
         # TODO does not work for degenerate ellipsoids
+        # each ellipsoid is {x | x @ S @ x + 2 * (A @ b) @ x + b @ b - 1 <= 0}
         t = cp.Variable(1)
         objective = cp.Minimize([0])  # feasibility problem
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From b90e90485ca50f5fc96f84d1374ce410f0c92bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 12/41] fix: mbe_of_ellipsoids uses the quadratic forms of the
 ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 94d1be5..a7bcf22 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -618,10 +618,12 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
-    """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
+def _mbee_con_mat(S, d, Ai, bi, ci, ti):
+    """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem.
+
+    The ith ellipsoid is {x | x @ Ai @ x + 2 * bi @ x + ci <= 0}.
+    """
     dim = S.shape[0]
-    ci = bi @ bi - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -662,7 +664,8 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E.S, E.A @ E.b, E.b @ E.b - 1, ti) << 0
+        for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From f0c375443623b22d886824042f2801aeb862855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 13/41] fix: face forms given as integer arrays are converted
 like float ones

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..339b8fc 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -231,7 +231,8 @@ class FaceForm:
             A CDD matrix representing the polyhedron.
         """
         # face form is Ax <= b, which cdd stores as one matrix [b -A]
-        F = np.hstack((self.b[:, None], -self.A))
+        # (floats, since cdd would use exact fractions for integer arrays)
+        F = np.hstack((self.b[:, None], -self.A)).astype(float)
         Fmat = cdd.Matrix(F)
         Fmat.rep_type = cdd.RepType.INEQUALITY
         return Fmat
-- 
2.43.0


From 096cf2cadb2762027c5b7af00551a7985b446cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 14/41] fix: SpanForm.transform rotates rays without
 translating them

---
 src/rigeo/polydd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 339b8fc..85858fd 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -163,8 +163,12 @@ class SpanForm:
         rays = None
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
+        elif np.any(translation):
+            # a cone has its apex at the origin, which is translated too
+            vertices = np.array([translation])
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            # rays are directions, so they are only rotated
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 5aea988f7fa6f605eb6d1e295d75fb4d8468c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 15/41] fix: face form with only equality rows

---
 src/rigeo/polydd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 85858fd..7963810 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -205,9 +205,10 @@ class FaceForm:
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
-- 
2.43.0


From b523e737c73f41c171c62bc7e0748fe8bce62036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 16/41] fix: polyhedron intersection keeps the halfspaces it
 was computed from

---
 src/rigeo/shape/poly.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 1635864..6726887 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -261,10 +261,15 @@ class ConvexPolyhedron(Shape):
         """
         assert isinstance(other, ConvexPolyhedron)
 
-        span_form = self.face_form.stack(other.face_form).to_span_form()
+        face_form = self.face_form.stack(other.face_form)
+        span_form = face_form.to_span_form()
         if span_form is None:
             return None
-        return ConvexPolyhedron(span_form=span_form)
+        # keep the halfspaces: recovering them from the computed vertices is
+        # numerically unreliable
+        return ConvexPolyhedron(
+            face_form=face_form.canonical(), span_form=span_form
+        )
 
     def moment_sdp_feasibility_problem(self, param_var, eps=0, d=2):
         objective = cp.Minimize([0])
-- 
2.43.0


From f5d4cb9c56f6d91480461ec5395cc36cb928cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 17/41] fix: moment_sdp_constraints enforce the eps bound and
 symmetry of J

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 9fe6838..b96b271 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -168,7 +168,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 6726887..d0c65d2 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -290,7 +290,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 2b4d59dd740546ee469c185b5a4332b43c1f5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 18/41] fix: the eps bound of
 Cylinder.moment_custom_vertex_constraints does not apply to its flat disks

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index b96b271..554fd2a 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -191,7 +191,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From cd46217115a5cdf933229c3c6dd6465feea8e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 19/41] fix: Ellipsoid.can_realize allows for rounding

Parameters of flat bodies, and of bodies reaching the surface, are on the
boundary of the conditions and were accepted or rejected at random.
---
 src/rigeo/shape/ellipsoid.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index a7bcf22..953078d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -347,7 +347,7 @@ class Ellipsoid(Shape):
             constraints.append(c)
         return constraints
 
-    def can_realize(self, params, eps=0):
+    def can_realize(self, params, eps=0, tol=1e-8):
         """Check if the ellipsoid can realize the inertial parameters.
 
         Parameters
@@ -358,6 +358,8 @@ class Ellipsoid(Shape):
             The parameters will be considered consistent if all of the
             eigenvalues of the pseudo-inertia matrix are greater than or equal
             to ``eps``.
+        tol : float, non-negative
+            Numerical tolerance, relative to the mass.
 
         Returns
         -------
@@ -367,20 +369,26 @@ class Ellipsoid(Shape):
         assert (
             self.dim == 3
         ), "Shape must be 3-dimensional to realize inertial parameters."
-        if not params.consistent(eps=eps):
+
+        # parameters of bodies that are flat or reach the surface lie on the
+        # boundary of these conditions, so allow for rounding
+        tol = tol * params.mass
+        if not params.consistent(eps=eps - tol):
             return False
 
         # non-degenerate case
         if not self.is_degenerate():
             assert np.isfinite(self.Q).all()
-            return np.trace(self.Q @ params.J) >= 0  # TODO tolerance?
+            return np.trace(self.Q @ params.J) >= -tol
 
         # degenerate case requires checking Q matrices in the zero and non-zero
         # length directions separately
         # NOTE we do not check realizability for lower-dimensional ellipsoids;
         # it is supported in must_realize to facilitate building other shapes
         Qnz, Qz = self._Q_degenerate()
-        return np.trace(Qnz @ params.J) >= 0 and np.isclose(np.trace(Qz @ params.J), 0)
+        return np.trace(Qnz @ params.J) >= -tol and np.isclose(
+            np.trace(Qz @ params.J), 0, rtol=0, atol=tol
+        )
 
     def moment_constraints(self, param_var, eps=0):
         """Generate cvxpy constraints for inertial parameters to be realizable
-- 
2.43.0


From a27887bd1923bea61fe6c54f965b6f208b9a2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 20/41] fix: Polynomial.basis of degree zero contains a moment
 index

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..eb9f9ab 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From 0c5d41b39aca4e6cc9dd9d728d82bd632461e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 21/41] fix: moment_constraints force the moment matrix to be
 symmetric

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index eb9f9ab..090c23b 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -203,7 +203,7 @@ class MomentMatrix:
 
         constraints = []
         for i in range(self.r):
-            for j in range(i, self.r):
+            for j in range(self.r):
                 sub = self.indices[i, j]
                 constraints.append(sub_var_map[sub] == M_var[i, j])
         return constraints
-- 
2.43.0


From 56bb8f37707839bb7b98237b12213aa745e6183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 22/41] fix: Box.random_points_on_surface applied the pose
 twice and failed for one point

---
 src/rigeo/shape/box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 3e71e38..9ee8165 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -142,11 +142,11 @@ class Box(ConvexPolyhedron):
             shape = (shape,)
         n = np.prod(shape)
 
-        # generate some random points inside the box
+        # generate some random points inside the box (in its own frame)
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From dd31ff95861ad39fae141c7396bbd3e12c140a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 23/41] fix: Ellipsoid.random_points_on_surface rotated the
 samples the wrong way

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 953078d..ff2d91f 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -517,7 +517,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 0bb06f7878660660b89001a8fa0f5e4697603028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 24/41] fix: sampling in one dimension

---
 src/rigeo/random.py          | 6 +++---
 src/rigeo/shape/ellipsoid.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..fcbec91 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return points[0]
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return points[0]
     return points
 
 
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index ff2d91f..55d19de 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -521,7 +521,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return points[0]
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
-- 
2.43.0


From 7c1645cd297b205d96cf6cc8fc989e28c1fc1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 25/41] fix: Ellipsoid.volume in dimensions other than three

---
 src/rigeo/shape/ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 55d19de..8eb3ba3 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -1,6 +1,7 @@
 import numpy as np
 import cvxpy as cp
 from scipy.linalg import orth, null_space
+from scipy.special import gamma
 
 from ..util import clean_transform
 from ..random import random_points_in_ball, random_points_on_hypersphere
@@ -108,7 +109,8 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        d = self.dim
+        return np.pi ** (d / 2) / gamma(d / 2 + 1) * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From 48d7357034dd5aefebbd9c50b8f8214b205f09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 26/41] fix: is_triangular_number is exact for large integers

---
 src/rigeo/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..337c91d 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -1,5 +1,6 @@
 """Miscellaneous utility functions."""
 import itertools
+import math
 import numbers
 from pathlib import Path
 
@@ -51,9 +52,10 @@ def is_triangular_number(x):
     if not (isinstance(x, numbers.Integral) or x.is_integer()) or x < 1:
         return False, -1
 
-    # use quadratic formula to solve
-    n = 0.5 * (np.sqrt(1 + 8 * x) - 1)
-    return n.is_integer(), int(n)
+    # use quadratic formula to solve (in exact integer arithmetic)
+    x = int(x)
+    n = (math.isqrt(1 + 8 * x) - 1) // 2
+    return n * (n + 1) // 2 == x, n
 
 
 def unvech(a):
-- 
2.43.0


From eab7804e661ce13a658e5e6390029c8a9ebe38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 27/41] fix: FaceForm copies its arrays, as SpanForm does

---
 src/rigeo/polydd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 7963810..444d0b9 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -185,8 +185,8 @@ class FaceForm:
             self.A = np.vstack((A_ineq, A_eq, -A_eq))
             self.b = np.concatenate((b_ineq, b_eq, -b_eq))
         else:
-            self.A = A_ineq
-            self.b = b_ineq
+            self.A = np.array(A_ineq)
+            self.b = np.array(b_ineq)
 
     def __repr__(self):
         return f"FaceForm(A={self.A}, b={self.b})"
-- 
2.43.0


From 7627bd6369d2aeea22d605a8ffff8bcb555dcd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 28/41] fix: Ellipsoid.rank treats half extents below tolerance
 as zero, like the rest of the class

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 8eb3ba3..e49a880 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -104,7 +104,7 @@ class Ellipsoid(Shape):
 
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        return np.count_nonzero(~self._z())
 
     @property
     def volume(self):
-- 
2.43.0


From b9c23f3d8fde6473ba183ebcfe7c1aaa513f3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 29/41] fix: Ellipsoid.from_affine for maps that are not
 symmetric

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e49a880..910b880 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -148,7 +148,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From eb8aec5d15c7479118977e1e79fdcfe5a39e99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 30/41] fix: faces recovered from cdd have unit normals, so
 tolerances are distances

---
 src/rigeo/polydd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 444d0b9..e11e281 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -204,6 +204,13 @@ class FaceForm:
         b = M[:, 0]
         A = -M[:, 1:]
 
+        # cdd scales the rows arbitrarily (normals of length 1e5 are common),
+        # but tolerances are distances only if the normals have unit length
+        norms = np.linalg.norm(A.astype(float), axis=1)
+        norms[norms == 0] = 1.0
+        A = A / norms[:, None]
+        b = b / norms
+
         ineq_idx = np.array(
             [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
             dtype=int,
-- 
2.43.0


From 6db94c4b182c03064433a37fdf79ae8626b9117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 31/41] fix: geodesic distance is real when the eigenvalues
 repeat

np.linalg.eigvals treats A^-1 B as a general matrix, so repeated
eigenvalues come out as complex pairs and with an error of the square
root of machine precision. The pencil is symmetric-definite: use
eigvalsh(B, A).
---
 src/rigeo/unused/geodesic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/geodesic.py b/src/rigeo/unused/geodesic.py
index e22646d..867347f 100644
--- a/src/rigeo/unused/geodesic.py
+++ b/src/rigeo/unused/geodesic.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.linalg import eigvalsh
 
 
 def positive_definite_distance(A, B):
@@ -21,6 +22,6 @@ def positive_definite_distance(A, B):
         The geodesic distance between :math:`\\boldsymbol{A}` and :math:`\\boldsymbol{B}`.
     """
     assert A.shape == B.shape, "Matrices must have the same shape."
-    C = np.linalg.solve(A, B)
-    eigs = np.linalg.eigvals(C)
+    # the pencil is symmetric-definite, so the eigenvalues are real
+    eigs = eigvalsh(B, A)
     return np.sqrt(0.5 * np.sum(np.log(eigs) ** 2))
-- 
2.43.0


From a62011648475368b924318a3736ce6288acdbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 32/41] fix: joint torque regressor for floating bases and for
 a single joint

The columns to swap belong to links, not to velocity coordinates, so a
floating base (nv > number of links) indexed past the end. With one
velocity coordinate pinocchio returns a flat array.
---
 src/rigeo/unused/multibody.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 88a6eb7..96e0d10 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -300,8 +300,10 @@ class MultiBody:
         # but I prefer to store them
         #   θ = [m, hx, hy, hz, Ixx, Ixy, Ixz, Iyy, Iyz, Izz]
         # (i.e, Ixz and Iyy are swapped)
+        # (note that pinocchio returns a flat array when there is only one row)
+        Y_pin = Y_pin.reshape((self.nv, 10 * (self.nj - 1)))
         Y = Y_pin.copy()
-        for i in range(self.model.nv):
+        for i in range(self.nj - 1):
             Y[:, i * 10 + 6] = Y_pin[:, i * 10 + 7]
             Y[:, i * 10 + 7] = Y_pin[:, i * 10 + 6]
         return Y
-- 
2.43.0


From 2cff21e1392eacd8a94636f7aadb21b71d3327be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 33/41] fix: MultiBody.get_frame_pose returns copies, so the
 next forward kinematics does not change them

---
 src/rigeo/unused/multibody.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 96e0d10..8e11e2c 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -329,7 +329,9 @@ class MultiBody:
         """
         idx = self._resolve_frame_index(frame)
         pose = self.data.oMf[idx]
-        return pose.rotation, pose.translation
+        # copies, because pinocchio returns views of self.data, which the next
+        # call to compute_forward_kinematics overwrites
+        return pose.rotation.copy(), pose.translation.copy()
 
     def get_frame_velocity(self, frame=None, expressed_in=RF.LOCAL):
         """Get velocity of link at index link_idx"""
-- 
2.43.0


From 3ad7f5d8b825ed447ec8ed6d745011d178570db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 34/41] fix: computing joint torques no longer changes the
 frame velocities of the multibody

---
 src/rigeo/unused/multibody.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 8e11e2c..ba9d5b8 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -42,6 +42,10 @@ class MultiBody:
         self.model = model
         self.data = self.model.createData()
 
+        # dynamics need their own data, because computing them overwrites the
+        # velocities from compute_forward_kinematics
+        self.dynamics_data = self.model.createData()
+
         self.nj = model.njoints  # number of joints
         self.nq = model.nq  # number of joint positions
         self.nv = model.nv  # number of joint velocities
@@ -272,7 +276,7 @@ class MultiBody:
         assert v.shape == (self.nv,)
         assert a.shape == (self.nv,)
 
-        return pinocchio.rnea(self.model, self.data, q, v, a)
+        return pinocchio.rnea(self.model, self.dynamics_data, q, v, a)
 
     def compute_joint_torque_regressor(self, q, v, a):
         """Compute the joint torque regressor matrix for the multibody.
@@ -294,7 +298,9 @@ class MultiBody:
         : np.ndarray, shape (self.nv, 10 * self.nlinks)
             The joint torque regressor matrix.
         """
-        Y_pin = pinocchio.computeJointTorqueRegressor(self.model, self.data, q, v, a)
+        Y_pin = pinocchio.computeJointTorqueRegressor(
+            self.model, self.dynamics_data, q, v, a
+        )
         # pinocchio stores inertial parameter vector as
         #   θ = [m, hx, hy, hz, Ixx, Ixy, Iyy, Ixz, Iyz, Izz],
         # but I prefer to store them
-- 
2.43.0


From 3bc599c9ffc1aba0a2f75a5b4ac88510b20d89bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 35/41] fix: inertial parameters own copies of the center of
 mass and second moments they are built from

---
 src/rigeo/inertial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index ffd66f9..8d236ee 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -51,7 +51,7 @@ class InertialParameters:
                 com = np.zeros(3)
             else:
                 com = h / mass
-        self.com = com
+        self.com = np.array(com)
 
         if H is not None and I is not None:
             raise ValueError("Cannot specify both H and I.")
@@ -69,7 +69,7 @@ class InertialParameters:
         if translate_from_com:
             H = H + mass * np.outer(com, com)
 
-        self.H = H
+        self.H = np.array(H)
 
     def __repr__(self):
         return f"InertialParameters(mass={self.mass}, com={self.com}, H={self.H})"
-- 
2.43.0


From 88dd00657f238826d4d48e000987d1495e243229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 36/41] fix: MultiBody with a gravity vector no longer changes
 the gravity of the caller's model

---
 src/rigeo/unused/multibody.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index ba9d5b8..47f39db 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -61,6 +61,8 @@ class MultiBody:
         if gravity is not None:
             gravity = np.array(gravity)
             assert gravity.shape == (3,)
+            # the model belongs to the caller
+            self.model = model.copy()
             self.model.gravity.linear = gravity
 
         # geometric model
-- 
2.43.0


From 4de5048e57c260bfe98d8bb11a3aaa819f4cb8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 37/41] fix: is_same of ellipsoids, cylinders and capsules
 compares within tol at every size

np.isclose and np.allclose add 1e-5 of the other shape's values to the
tolerance, so that large or far shapes which differ by much more than tol
were the same, depending on which of them was asked.
---
 src/rigeo/shape/capsule.py   | 4 ++--
 src/rigeo/shape/cylinder.py  | 8 ++++----
 src/rigeo/shape/ellipsoid.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rigeo/shape/capsule.py b/src/rigeo/shape/capsule.py
index 68e42ee..9ddf85f 100644
--- a/src/rigeo/shape/capsule.py
+++ b/src/rigeo/shape/capsule.py
@@ -50,8 +50,8 @@ class Capsule(Shape):
             return False
         # the endpoints (in either order) and radius determine the capsule
         ends = other.cylinder.endpoints()
-        return np.isclose(self.radius, other.radius, atol=tol) and any(
-            np.allclose(self.cylinder.endpoints(), e, atol=tol)
+        return np.isclose(self.radius, other.radius, rtol=0, atol=tol) and any(
+            np.allclose(self.cylinder.endpoints(), e, rtol=0, atol=tol)
             for e in (ends, ends[::-1])
         )
 
diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 554fd2a..23ba9ad 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -113,9 +113,9 @@ class Cylinder(Shape):
         if not isinstance(other, self.__class__):
             return False
         if not (
-            np.isclose(self.length, other.length, atol=tol)
-            and np.isclose(self.radius, other.radius, atol=tol)
-            and np.allclose(self.center, other.center, atol=tol)
+            np.isclose(self.length, other.length, rtol=0, atol=tol)
+            and np.isclose(self.radius, other.radius, rtol=0, atol=tol)
+            and np.allclose(self.center, other.center, rtol=0, atol=tol)
         ):
             return False
 
@@ -124,7 +124,7 @@ class Cylinder(Shape):
         P1 = np.outer(self.longitudinal_axis, self.longitudinal_axis)
         P2 = np.outer(other.longitudinal_axis, other.longitudinal_axis)
         s = max(self.length, self.radius)
-        return np.allclose(s * P1, s * P2, atol=tol)
+        return np.allclose(s * P1, s * P2, rtol=0, atol=tol)
 
     def contains(self, points, tol=1e-8):
         P1 = points @ self.longitudinal_axis[:, None]
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 910b880..284b9fa 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -252,8 +252,8 @@ class Ellipsoid(Shape):
         # ellipsoid, which unlike Q also exist for degenerate ellipsoids
         B1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
         B2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T
-        return np.allclose(self.center, other.center, atol=tol) and np.allclose(
-            B1, B2, atol=tol
+        return np.allclose(self.center, other.center, rtol=0, atol=tol) and np.allclose(
+            B1, B2, rtol=0, atol=tol
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 9144696aaa8b6807e665aa284221c6513ee9d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 38/41] fix: RigidBody owns its list of shapes

The caller's list was stored as it was, so changing it later changed the
body, and bodies made from tuples and lists of shapes could not be added.
---
 src/rigeo/rigidbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/rigidbody.py b/src/rigeo/rigidbody.py
index d71b1ce..ed5eaef 100644
--- a/src/rigeo/rigidbody.py
+++ b/src/rigeo/rigidbody.py
@@ -31,7 +31,7 @@ class RigidBody:
         if params is None:
             params = InertialParameters.zero()
 
-        self.shapes = shapes
+        self.shapes = list(shapes)
         self.params = params
 
     def __add__(self, other):
-- 
2.43.0


From e062f0508e450b24abe5b7ae11592b597ecc8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 39/41] fix: convert polyhedra at a scale suited to cdd's
 tolerances

cdd's floating-point arithmetic has absolute tolerances: polyhedra with
coordinates of 100 and more lost faces or vertices or could not be converted
at all, those below 1e-6 collapsed, and halfspaces with small coefficients
were dropped or made the conversion hang. Scale rows and coordinates (by
powers of two) before calling cdd, and scale the result back.
---
 src/rigeo/polydd.py | 70 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index e11e281..767054d 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -3,6 +3,17 @@ import numpy as np
 import cdd
 
 
+def _magnitude(X, axis=None):
+    """Power of two close to the largest absolute value in ``X`` (one if all are zero).
+
+    cdd's floating-point arithmetic uses absolute tolerances and is least
+    accurate for large numbers, so its input is scaled to be at most of order
+    one; powers of two do so without rounding errors.
+    """
+    m = np.max(np.abs(X), axis=axis, initial=0)
+    return 2.0 ** np.round(np.log2(np.where(m > 0, m, 1)))
+
+
 class SpanForm:
     """Span form (V-rep) of a convex polyhedron.
 
@@ -54,14 +65,19 @@ class SpanForm:
             dim = self.rays.shape[1]
         return dim
 
+    def _scale(self):
+        return 8 * _magnitude(self.vertices) if self.vertices is not None else 1.0
+
     @classmethod
-    def from_cdd_matrix(cls, mat):
+    def from_cdd_matrix(cls, mat, scale=1):
         """Construct from a CDD matrix.
 
         Parameters
         ----------
         mat : cdd.Matrix
             The CDD matrix representing the polyhedron.
+        scale : float
+            Factor by which the matrix has been scaled down.
         """
         M = np.array([mat[i] for i in range(mat.row_size)])
         if mat.row_size == 0:
@@ -79,7 +95,7 @@ class SpanForm:
             s_mask[lin_idx] = True
             r_mask[lin_idx] = False
 
-        vertices = M[v_mask, 1:] if np.any(v_mask) else None
+        vertices = scale * M[v_mask, 1:] if np.any(v_mask) else None
         rays = M[r_mask, 1:] if np.any(r_mask) else None
         span = M[s_mask, 1:] if np.any(s_mask) else None
         return cls(vertices=vertices, rays=rays, span=span)
@@ -106,9 +122,14 @@ class SpanForm:
         """
         return self.rays is not None and self.vertices is None
 
-    def to_cdd_matrix(self):
+    def to_cdd_matrix(self, scale=1):
         """Convert to a CDD matrix.
 
+        Parameters
+        ----------
+        scale : float
+            Factor by which to scale down the polyhedron.
+
         Returns
         -------
         : cdd.Matrix
@@ -118,10 +139,10 @@ class SpanForm:
         S = np.zeros((n, self.dim + 1))
         if self.vertices is not None:
             S[: self.nv, 0] = 1.0
-            S[: self.nv, 1:] = self.vertices
+            S[: self.nv, 1:] = self.vertices / scale
         if self.rays is not None:
             S[self.nv :, 0] = 0.0
-            S[self.nv :, 1:] = self.rays
+            S[self.nv :, 1:] = self.rays / _magnitude(self.rays, axis=1)[:, None]
         Smat = cdd.Matrix(S)
         Smat.rep_type = cdd.RepType.GENERATOR
         return Smat
@@ -136,9 +157,10 @@ class SpanForm:
         : SpanForm
             A canonicalized version of the span form.
         """
-        mat = self.to_cdd_matrix()
+        scale = self._scale()
+        mat = self.to_cdd_matrix(scale)
         mat.canonicalize()
-        return SpanForm.from_cdd_matrix(mat)
+        return SpanForm.from_cdd_matrix(mat, scale)
 
     def to_face_form(self):
         """Convert to face form.
@@ -148,10 +170,11 @@ class SpanForm:
         : FaceForm
             The equivalent face form of the polyhedron.
         """
-        Smat = self.to_cdd_matrix()
+        scale = self._scale()
+        Smat = self.to_cdd_matrix(scale)
         poly = cdd.Polyhedron(Smat)
         Fmat = poly.get_inequalities()
-        return FaceForm.from_cdd_matrix(Fmat)
+        return FaceForm.from_cdd_matrix(Fmat, scale)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
@@ -191,17 +214,22 @@ class FaceForm:
     def __repr__(self):
         return f"FaceForm(A={self.A}, b={self.b})"
 
+    def _scale(self):
+        return 8 * _magnitude(self.b / _magnitude(self.A, axis=1))
+
     @classmethod
-    def from_cdd_matrix(cls, mat):
+    def from_cdd_matrix(cls, mat, scale=1):
         """Construct from a CDD matrix.
 
         Parameters
         ----------
         mat : cdd.Matrix
             The CDD matrix representing the polyhedron.
+        scale : float
+            Factor by which the matrix has been scaled down.
         """
         M = np.array([mat[i] for i in range(mat.row_size)])
-        b = M[:, 0]
+        b = scale * M[:, 0]
         A = -M[:, 1:]
 
         # cdd scales the rows arbitrarily (normals of length 1e5 are common),
@@ -234,9 +262,14 @@ class FaceForm:
         """The dimension of the ambient space."""
         return self.A.shape[1]
 
-    def to_cdd_matrix(self):
+    def to_cdd_matrix(self, scale=1):
         """Convert to a CDD matrix.
 
+        Parameters
+        ----------
+        scale : float
+            Factor by which to scale down the polyhedron.
+
         Returns
         -------
         : cdd.Matrix
@@ -244,7 +277,8 @@ class FaceForm:
         """
         # face form is Ax <= b, which cdd stores as one matrix [b -A]
         # (floats, since cdd would use exact fractions for integer arrays)
-        F = np.hstack((self.b[:, None], -self.A)).astype(float)
+        F = np.hstack((self.b[:, None] / scale, -self.A)).astype(float)
+        F = F / _magnitude(self.A, axis=1)[:, None]
         Fmat = cdd.Matrix(F)
         Fmat.rep_type = cdd.RepType.INEQUALITY
         return Fmat
@@ -257,9 +291,10 @@ class FaceForm:
         : FaceForm
             A canonicalized version of the face form.
         """
-        mat = self.to_cdd_matrix()
+        scale = self._scale()
+        mat = self.to_cdd_matrix(scale)
         mat.canonicalize()
-        return FaceForm.from_cdd_matrix(mat)
+        return FaceForm.from_cdd_matrix(mat, scale)
 
     def stack(self, other):
         """Combine two face forms together.
@@ -288,10 +323,11 @@ class FaceForm:
         : SpanForm
             The equivalent span form of the polyhedron.
         """
-        Fmat = self.to_cdd_matrix()
+        scale = self._scale()
+        Fmat = self.to_cdd_matrix(scale)
         poly = cdd.Polyhedron(Fmat)
         Smat = poly.get_generators()
-        return SpanForm.from_cdd_matrix(Smat)
+        return SpanForm.from_cdd_matrix(Smat, scale)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
-- 
2.43.0


From eef415ebf50fb34b2ed75522b7655b7d886b1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:47 +0000
Subject: [PATCH 40/41] fix: scale polyhedra to order one for cdd

---
 src/rigeo/polydd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 767054d..464e947 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -66,7 +66,7 @@ class SpanForm:
         return dim
 
     def _scale(self):
-        return 8 * _magnitude(self.vertices) if self.vertices is not None else 1.0
+        return _magnitude(self.vertices) if self.vertices is not None else 1.0
 
     @classmethod
     def from_cdd_matrix(cls, mat, scale=1):
@@ -215,7 +215,7 @@ class FaceForm:
         return f"FaceForm(A={self.A}, b={self.b})"
 
     def _scale(self):
-        return 8 * _magnitude(self.b / _magnitude(self.A, axis=1))
+        return _magnitude(self.b / _magnitude(self.A, axis=1))
 
     @classmethod
     def from_cdd_matrix(cls, mat, scale=1):
-- 
2.43.0


From 99dca5ac20664003e20f53d83b4819e4d0a6fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:55 +0000
Subject: [PATCH 41/41] fix: contains_ellipsoid is independent of the location
 of the ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 284b9fa..be544d3 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -560,15 +560,18 @@ class Ellipsoid(Shape):
     def contains_ellipsoid(self, other, solver=None):
         # See Boyd and Vandenberghe pp. 411
         # TODO does not work for degenerate ellipsoids
-        # each ellipsoid is {x | x @ S @ x + 2 * (A @ b) @ x + b @ b - 1 <= 0}
+        # the ellipsoids are expressed in coordinates where the other one is the
+        # unit ball, so that the problem is well scaled wherever they are
+        M = self.A @ other.rotation @ np.diag(other.half_extents)
+        d = self.A @ (other.center - self.center)
         t = cp.Variable(1)
         objective = cp.Minimize([0])  # feasibility problem
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.S,
-                self.A @ self.b - t * (other.A @ other.b),
-                self.b @ self.b - 1 - t * (other.b @ other.b - 1),
+                M.T @ M - t * np.eye(self.dim),
+                M.T @ d,
+                d @ d - 1 + t,
             )
             << 0,
         ]
-- 
2.43.0

