From 1ad61fcf271b649b557fca38a6c34c017a3849ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/73] fix: as_dict raises DuplicateNameError on duplicate
 names

The exception was built without its mandatory message, so a TypeError
was raised instead.
---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..59b8516 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        "Some names are duplicated:\n" + str([obj.name]))
         return result
 
 
-- 
2.43.0


From e8cfa8f87fe922a4e111f06d8e9ce8a8306fa811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/73] fix: accept plane normals whose norm is one up to
 rounding

Plane normalizes its normal, but the collision solver required a norm
of exactly 1., which one normalized vector out of three does not have.
---
 arboris/collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..fed6451 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -277,7 +277,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
     normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-- 
2.43.0


From 048d2b2c8358615a0becccab07d24296793506f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/73] fix: return plane contact frames relative to the ground

They were expressed in the plane frame, which is wrong as soon as the
plane is not attached to a frame which coincides with the ground.
---
 arboris/collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index fed6451..8b9ecd6 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -283,10 +283,11 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
     csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
     sdist = csdist - radius1
-    H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    normal_g = Hg.vdot(H_g0, normal) # the plane normal, in the ground frame
+    H_gc0 = Hg.zaligned(normal_g)
+    H_gc0[0:3, 3] = p_g1 - csdist * normal_g
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - sign(sdist) * radius1 * normal_g
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From 5ced8b438ee0dc3f3e5760c9dd23f635bd7d43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/73] fix: contact point of a sphere touching or penetrating
 a plane

The point was put at the center of a sphere in exact contact, and at the
opposite side of a sphere which penetrates the plane.
---
 arboris/collisions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 8b9ecd6..1bc4e32 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -287,7 +287,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     H_gc0 = Hg.zaligned(normal_g)
     H_gc0[0:3, 3] = p_g1 - csdist * normal_g
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_g1 - sign(sdist) * radius1 * normal_g
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal_g
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From c7b629bfb4a76ba3fee56a89a6a32e8a1e8303f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 05/73] fix: express the box normal in the ground frame when
 the center is inside

---
 arboris/collisions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 1bc4e32..7f3f3b5 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -375,6 +375,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         else:
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
+        normal = Hg.vdot(H_g0, normal)
         f_g = Hg.pdot(H_g0, f_0)
         sdist = -norm(f_g - p_g1)-radius1
     else:
-- 
2.43.0


From e038524438b98b0ec674db979d299a44a466ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 06/73] fix: find the box/point solver whatever the shapes
 order

---
 arboris/collisions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 7f3f3b5..6b9877c 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -58,6 +58,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From a12d4d5565c31fbbd1db12d45095ffe2a347eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 07/73] fix: principalframe returns a rotation when principal
 moments are equal

eig gives non orthogonal eigenvectors (or even complex ones) when some
of the principal moments are equal, as those of a sphere or a cylinder.
---
 arboris/massmatrix.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..dba41c3 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -6,7 +6,7 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
 from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy.linalg import eigh, eigvals, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -98,12 +98,20 @@ def principalframe(M):
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
-    if det(R)<0.:
-        iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
-        R = dot(R, iI)
-        S = dot(iI, dot(S, iI))
-    H[0:3, 0:3] = R
+    # eigh returns orthogonal axes even if some principal moments are equal
+    [_, R] = eigh((RSR + RSR.T)/2.)
+    # sort and orient the axes to be as close as possible to the original ones
+    order = []
+    for i in range(3):
+        order.append(max((k for k in range(3) if k not in order),
+                         key=lambda k: abs(R[i, k])))
+    R = R[:, order]
+    for i in range(3):
+        if R[i, i] < 0.:
+            R[:, i] = -R[:, i]
+    if det(R) < 0.:
+        R[:, 2] = -R[:, 2]
+    H[0:3, 0:3] = R + 0.
     return H
 
 def box(half_extents, mass):
-- 
2.43.0


From ba87508abe404bf65218ba6373532852c757c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 08/73] fix: isadjointmatrix accepts determinants equal to one
 up to rounding

---
 arboris/adjointmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..b359ec8 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -24,7 +24,7 @@ import numpy as np
 def isadjointmatrix(Ad):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
+        abs(np.linalg.det(Ad[0:3, 0:3])-1) <= 1e-9) and (
         Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
         Ad[0:3, 3:6]==np.zeros((3, 3))).all()
 
-- 
2.43.0


From 4f04b093af24af6f449900ec9400d15f79d345a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/73] fix: PD controller of joints with different numbers of
 dof

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From a7d6dc67fcec487c6ccac3a413ba039931eb4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 10/73] fix: integrate joints whose initial position is given
 as integers

The in-place update of an integer array raised an exception.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 59b8516..3ec8a57 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -280,7 +280,7 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-- 
2.43.0


From ffe9a29424fd5b96eb9133db3b9d783afa382338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 11/73] fix: Hdf5Logger writes state and model data with their
 own shape

Every dataset was created with the (nsteps, 4, 4) shape: data of other
shapes was either broadcast or could not be written.
---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..f14d50f 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -393,7 +393,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From 9ee96290f53abf4e3ac62df4b7711db747ed51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 12/73] fix: SocketCom sends its closing message as bytes

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f14d50f..4c320f8 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -442,7 +442,7 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From fb846a8a6b224cf8ab6254af965d933c605399a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 13/73] fix: EnergyMonitor accepts massless bodies

---
 arboris/observers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 4c320f8..fb46503 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -62,7 +62,8 @@ class EnergyMonitor(Observer):
         self._com_pos           = {}
         self._bodies = self._world.ground.iter_descendant_bodies
         for body in self._bodies():
-            self._com_pos[body]  = principalframe(body.mass)[:, 3]
+            if body.mass[5, 5] > 0.:
+                self._com_pos[body]  = principalframe(body.mass)[:, 3]
 
     def update(self, dt):
         self.time.append(self._world.current_time)
@@ -70,8 +71,8 @@ class EnergyMonitor(Observer):
                  dot(self._world.mass, self._world.gvel) )/2.
         self.kinetic_energy.append(Ec)
         Ep = 0.
-        for body in self._bodies():
-            h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)
+        for body, com_pos in self._com_pos.items():
+            h = dot( dot(body.pose, com_pos)[0:3], self._world.up)
             Ep += body.mass[3, 3] * h
         Ep *= 9.81
         self.potential_energy.append(Ep)
-- 
2.43.0


From a2a215e2abeadc8f38853650a209518f3b57251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 14/73] fix: enforce the limits of each dof of a joint
 separately

When a dof of a multi-dof joint reached its lower limit, the upper limits
of the others were ignored, and the dofs within their limits were pushed
toward them.
---
 arboris/constraints.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..a786c15 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,25 +72,22 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
         prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
-        return dforce
+        vel_no_force = vel - dot(admittance, prev_force)
+        for i in range(self.ndol):
+            # predict the position with no force along the i-iest dof
+            self._force[i] = 0.
+            pred = self._pos0[i] + dt*(vel_no_force[i] +
+                                       dot(admittance[i], self._force))
+            if pred <= self._min[i]:
+                # the min limit is violated, we want pos == min
+                self._force[i] = (self._min[i] - pred)/(dt*admittance[i, i])
+            elif self._max[i] <= pred:
+                # the max limit is violated, we want pos == max
+                self._force[i] = (self._max[i] - pred)/(dt*admittance[i, i])
+            # else the dof is within its limits, and its generalized
+            # force is zero
+        return self._force - prev_force
 
 class BallAndSocketConstraint(Constraint):
     r""" Create a ball and socket joint constraint between two frames.
-- 
2.43.0


From f188407f61b65e18ad1520bf31a5e6875894ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 15/73] fix: friction force of a sliding soft-finger contact

dot() of two vectors was used instead of their outer product, and the
cross term had the wrong sign, so that the sliding friction force did not
lie on the friction ellipsoid.
---
 arboris/constraints.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index a786c15..c5d857d 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, diag, outer, logical_and, arange
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -750,7 +750,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -811,18 +811,19 @@ class SoftFingerContact(PointContact):
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
                 Y_c = admittance[0:3, 3]
+                Y_r = admittance[3, 0:3] # Y_c, if admittance is symmetric
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
-                b = self._mu/y_n * Y_c
+                b = self._mu/y_n * Y_r
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
-                B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                Y_that = Y_t - outer(Y_c, Y_r)/y_n
+                B[3:6, 3:6] = dot(E, Y_that.T)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
-- 
2.43.0


From 214f0bc59279fc462f9aa13d03b87c81e542d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 16/73] fix: leave the joint free when add_link refuses a
 kinematic loop

The joint kept the refused frames, and could not be used in another link.
---
 arboris/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3ec8a57..a5d1d86 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -527,13 +527,12 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
+        if frame1.body.parentjoint is not None:
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        joint.set_frames(frame0, frame1)
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
-- 
2.43.0


From cb75c1e3ea03cd1d6f63262245037b4ba41413e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 17/73] fix: subframes own their pose

The array given by the caller was kept and, for moving subframes, written
to: frames created from the same array were moving together.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index a5d1d86..6945f96 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1113,7 +1113,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From e8010e48541f7bda3a4df07121f4d5b77f2b2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 18/73] fix: draw moving subframes at their absolute pose in
 flat mode

They are children of the ground then, like the bodies, and their absolute
pose is what the animation sends.
---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From a78913ffd38e331a1fc6be3fa7f9a91b15fa8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 19/73] fix: twist of the reference frame of a joint

RigidMotion.itwist is the twist of r relative to n expressed in r, so it is
obtained with the adjoint of H_rn. The adjoint of H_nr was used, hence wrong
idadjoint, body djacobian and nonlinear effects for joints with several dof.
---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From 83b00373379b8e8d5155ff27d006a3f0b73ab659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 20/73] fix: refuse links from a body to itself or to its
 ancestors

The ground and other root bodies have no parent joint, so such links were
accepted and any further walk through the tree never ended.
---
 arboris/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arboris/core.py b/arboris/core.py
index 6945f96..784c102 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -531,6 +531,10 @@ class World(NamedObject):
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        if frame1.body is frame0.body or \
+                any(b is frame1.body for b in frame0.body.iter_ancestor_bodies()):
+            raise ValueError("frame1's body is frame0's body or one of its " + \
+            "ancestors, this link would create a kinematic loop.")
         joint.set_frames(frame0, frame1)
         frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
-- 
2.43.0


From f1f87b86b720e41e652a63fc02156ebd57d257f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 21/73] fix: keep the soft-finger sliding eigenvalue real

The eigenvalues are complex as soon as one pair of them is, which made
the in-place update of the (real) admittance fail.
---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index c5d857d..bc84eb0 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -828,7 +828,7 @@ class SoftFingerContact(PointContact):
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                S = S[logical_and(S.imag == 0, S.real <= 0)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From 38b08143574c996b48ec8459b882bab5f03e57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 22/73] fix: accept rank deficient mass matrices despite
 rounding

The mass matrix of a point mass was refused when one of its null eigen
values came out as a tiny negative number.
---
 arboris/massmatrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index dba41c3..8827f81 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -21,7 +21,8 @@ def ismassmatrix(M, semi=False):
     common = M.shape == (6, 6) and allclose(M, M.T) and \
             allclose(M[3:6, 3:6], M[3,3]*eye(3))
     if semi:
-        return common and (eigvals(M) >= 0.).all()
+        # null eigen values may be computed as tiny negative numbers
+        return common and (eigvals(M).real >= -1e-12*abs(M).max()).all()
     else:
         return common and (eigvals(M) > 0.).all()
 
-- 
2.43.0


From 851440799455c595f0073b8edf5c74be5f686cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 23/73] fix: normal of a box when the other center is on its
 surface

The vector between the center and the nearest point of the box was
computed in the ground frame, where it may be null or dominated by
rounding although the center is outside of the box.
---
 arboris/collisions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 6b9877c..cfac274 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -388,8 +388,10 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         for i in arange(3):
             f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])
         f_g = Hg.pdot(H_g0, f_0)
-        vec = p_g1 - f_g
-        normal = vec/norm(vec)
+        # the center is outside of the box, so this vector cannot be null
+        # (even if the center is very close to the surface).
+        vec = p_01 - f_0
+        normal = Hg.vdot(H_g0, vec/norm(vec))
         sdist = norm(vec) - radius1
     H_gc0 = Hg.zaligned(normal)
     H_gc1 = H_gc0.copy()
-- 
2.43.0


From a35cde9be46182df320d1133a3385e63687343df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 24/73] fix: a soft-finger contact never sticks while pulling

The squared friction condition also held with a negative normal force.
---
 arboris/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index bc84eb0..4ee564f 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -800,8 +800,10 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
-                # the elliptic dry friction law is respected.
+            if (force[3] >= 0 and
+                sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2):
+                # the contact does not pull and the elliptic dry friction law
+                # is respected.
                 self._force = force
                 return dforce
             else:
-- 
2.43.0


From da03a348a6c2fd1fb8b2b0af845fc030576a9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 25/73] fix: a grazing soft-finger contact needs no force

When the gap without force is exactly zero, a is null and the sliding
computation divided by zero.
---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 4ee564f..fb7ac68 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -781,7 +781,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
+        if self._sdist + dt*vel_no_force[3] >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
-- 
2.43.0


From 4e505daa61cb607a20c0af81a8e756add5d76c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 26/73] fix: solve frictionless soft-finger contacts

A null friction coefficient made the sliding computation divide by zero.
---
 arboris/constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index fb7ac68..628a290 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -812,9 +812,14 @@ class SoftFingerContact(PointContact):
                 #
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
+                prev_force = self._force.copy()
+                y_n = admittance[3, 3]
+                if self._mu == 0.:
+                    # frictionless contact: only the normal force remains.
+                    self._force = array((0., 0., 0., -alpha[3]/y_n))
+                    return self._force - prev_force
                 Y_c = admittance[0:3, 3]
                 Y_r = admittance[3, 0:3] # Y_c, if admittance is symmetric
-                y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
@@ -835,7 +840,6 @@ class SoftFingerContact(PointContact):
                     s = -1e10 #TODO: log when len(S)==0
                 else:
                     s = max(min(S), -1e10) #TODO: log when |s|>=1e10
-                prev_force = self._force.copy()
                 A = admittance.copy()
                 A[0:3, 0:3] -= s*diag(self._eps**-2)
                 self._force = solve(A, -alpha)
-- 
2.43.0


From 58cf4fdf9592e1d5b5844dcff651026aa88a4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 27/73] fix: grazing contact despite rounding

The separation test is computed as alpha, which divides the sliding
computation.
---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 628a290..34e22a8 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -781,7 +781,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] >= 0:
+        if vel_no_force[3] + self._sdist/dt >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
-- 
2.43.0


From 77932e6aeec9f47a80de588e57bdfa0b792c68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 28/73] fix: check the unicity of names given by a generator

name_all_elements() exhausted the generator before checking, so that loggers
silently merged the bodies or moving frames sharing a name.
---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index 784c102..6cb9cd8 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -140,6 +140,7 @@ class DuplicateNameError(Exception):
 
 
 def name_all_elements(nlist, check_unicity=False):
+    nlist = list(nlist) # may be a generator, and is read twice
     # give a unique name for all unnamed elements
     for elem in nlist: 
         if elem.name is None:
-- 
2.43.0


From eda539f77e22afd73e45eeadc91d4c740cf74c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 29/73] fix: principal frame and transport of point masses and
 rods

Bodies may have a semi-definite mass matrix, but the energy monitor and the
center of mass observer failed on them.
---
 arboris/massmatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 8827f81..323af0f 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -65,7 +65,7 @@ def transport(M, H):
     True
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, semi=True)
     assert Hg.ishomogeneousmatrix(H)
     Ad = Hg.adjoint(H)
     return dot(Ad.T, dot(M, Ad))
@@ -93,8 +93,9 @@ def principalframe(M):
            [ 0.,  0.,  0.,  1.]])
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, semi=True)
     m = M[5, 5]
+    assert m > 0.
     rx = M[0:3, 3:6]/m
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
-- 
2.43.0


From 7eb96c00ea3d735948bf9583a71a0e165d7bb1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 30/73] fix: loggers check the unicity of all the names of
 transforms

A moving frame silently took the place of the body or joint frame having the
same name.
---
 arboris/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index fb46503..018c483 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -262,15 +262,18 @@ class SaveLogger(Observer):
             self._transforms         = {}
             self._root['transforms'] = self._transforms
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
+                flatlist = list(self._world.iterbodies())
+                flatlist.extend(self._world.itermovingsubframes())
+                name_all_elements(flatlist, True)
                 for b in self._world.iterbodies():
                     self._arb_transforms[b.name] = b
             else:
                 nonflatlist = [j.frames[1] for j in self._world.getjoints()]
+                nonflatlist.extend(f for f in self._world.itermovingsubframes()
+                                   if f not in nonflatlist)
                 name_all_elements(nonflatlist, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
 
             for f in self._world.itermovingsubframes():
                 self._arb_transforms[f.name] = f
-- 
2.43.0


From 2af9e78cff3cbbaf2beb5331a66b275a4e12a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 31/73] fix: Hdf5Logger overwrites the data of a simulation of
 another length

In the (default) append mode, all the data of the new simulation was lost with
a TypeError.
---
 arboris/observers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 018c483..aed608b 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -390,15 +390,20 @@ class Hdf5Logger(SaveLogger):
                 self._h5_root = self._h5_root.require_group(g)
 
     def finish(self):
-        dset = self._h5_root.require_dataset("timeline", (self._nb_steps,), "f8")
-        dset[:] = self._root["timeline"]
+        def write(group, name, data):
+            # a previous simulation may have left data of another length
+            if name in group and group[name].shape != data.shape:
+                del group[name]
+            dset = group.require_dataset(name, data.shape, "f8")
+            dset[:] = data
+
+        write(self._h5_root, "timeline", self._root["timeline"])
         group_elements = list(self._root.keys())
         group_elements.remove("timeline")
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, v.shape, "f8")
-                dset[:] = v
+                write(g, k, v)
 
         self._file.close()
 
-- 
2.43.0


From 7616c2788ad19b967541e88e64f38810a6d66084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 32/73] fix: contact of spheres with the same center

---
 arboris/collisions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index cfac274..4574cf6 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, arange
+from numpy        import array, zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -229,8 +229,12 @@ def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
 
     """
     vec = p_g1 - p_g0
-    sdist = norm(vec) - radius0 - radius1
-    normal = vec/norm(vec)
+    dist = norm(vec)
+    sdist = dist - radius0 - radius1
+    if dist > 1e-100:
+        normal = vec/dist
+    else: # the centers coincide, any direction suits
+        normal = array([0., 0., 1.])
     H_gc0 = Hg.zaligned(normal)
     z = H_gc0[0:3, 2]
     H_gc0[0:3, 3] = p_g0 + radius0*z
-- 
2.43.0


From 628e2620ef7bd4a0764b4c31bfeaefae41a9f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 33/73] fix: rate of the CoM jacobian of bodies whose CoM is
 off their origin

---
 arboris/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index aed608b..eb2a222 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -517,8 +517,9 @@ class CoMObserver(Observer):
                 self._CoMJacobian[:] += self.mass[i] * dot(Ad_com2_body, self.bodies[i].jacobian)[3:6,:]
 
                 ##### For dJacobian
+                # com2 follows the CoM, without rotating
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3,3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From 5058a71bd7ee2a61f12f8d1dd91a204ea9e0cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 34/73] fix: soft-finger contact of mechanisms with few dof

---
 arboris/constraints.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 34e22a8..c6d2fea 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy        import array, zeros, eye, dot, diag, outer, logical_and, arange
-from numpy.linalg import solve, eigvals, pinv
+from numpy.linalg import solve, eigvals, pinv, norm
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
 from   arboris.joints     import LinearConfigurationSpaceJoint
@@ -787,6 +787,13 @@ class SoftFingerContact(PointContact):
             self._force[:] = 0.
             return dforce
 
+        elif admittance[3, 3] <= 1e-12*norm(admittance):
+            # the mechanism cannot move along the normal: the contact has no
+            # effect on the normal velocity.
+            dforce = -self._force
+            self._force = zeros(4)
+            return dforce
+
         else:
             # if there is contact, the normal velocity is given by the
             # restitution model (here, zero for strictly inelastic
@@ -818,6 +825,20 @@ class SoftFingerContact(PointContact):
                     # frictionless contact: only the normal force remains.
                     self._force = array((0., 0., 0., -alpha[3]/y_n))
                     return self._force - prev_force
+
+                # With a mechanism with few dof (the admittance is rank
+                # deficient) several forces ensure static friction. Try the
+                # one with the smallest tangential part.
+                s_min = 1e-9*norm(admittance)
+                A = admittance.copy()
+                A[0:3, 0:3] += s_min*diag(self._eps**-2)
+                force = solve(A, -alpha)
+                slip = (alpha + dot(admittance, force))[0:3]
+                if (force[3] >= 0 and norm(slip) <= 1e-6*norm(alpha) and
+                    norm(force[0:3]/self._eps) <= force[3]*self._mu*(1+1e-6)):
+                    self._force = force
+                    return self._force - prev_force
+
                 Y_c = admittance[0:3, 3]
                 Y_r = admittance[3, 0:3] # Y_c, if admittance is symmetric
                 Y_t = admittance[0:3, 0:3]
@@ -835,7 +856,7 @@ class SoftFingerContact(PointContact):
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)].real
+                S = S[logical_and(S.imag == 0, S.real <= -s_min)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From 9511aec82a2de15c1b8f9b78d4917ae8c292dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 35/73] fix: trunk of humans with different left and right
 lengths

---
 arboris/robots/human36.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..1567c98 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -266,7 +266,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
              [(L['xsternoclavR'] + L['xsternoclavL'])/4.,
               0.7001*(L['ysternoclavR']+L['ysternoclavL'])/2.,
               0.],
-             array([0.716, 0.659, 0.454])*L['ysternoclavR'])
+             array([0.716, 0.659, 0.454])*(L['ysternoclavR']+L['ysternoclavL'])/2.)
     # right shoulder
     add_body("ScapulaR", 0.,
              [0., 0., 0.],
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavR'])/2., (L['ysternoclavL']+L['ysternoclavR'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From dfc56876d89b191c6a368df45b206e3446700715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 36/73] fix: keep the name of drawn spheres and points

---
 arboris/visu/world_drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index c48a39a..8f3b326 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -128,10 +128,10 @@ class DrawerDriver():
         pass
 
     def create_sphere(self, radius, color, name=None):
-        return self.create_ellipsoid([radius] * 3, color)
+        return self.create_ellipsoid([radius] * 3, color, name)
 
     def create_point(self, color, name=None):
-        return self.create_sphere(self._options['point radius'], color)
+        return self.create_sphere(self._options['point radius'], color, name)
 
     @abstractmethod
     def create_box(self, half_extents, color, name=None):
-- 
2.43.0


From 5f47cc2ca89ac0e125a606501b341c10fb8b2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 37/73] fix: port the URDF loader to Python 3

arboris.robots.urdf could not be imported: print and raise statements,
the string module's functions, iterators kept where lists are needed,
iteritems, and the viewer imported only to find a data file.
---
 arboris/robots/urdf/__init__.py    | 19 +++++++++++--------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..c42de21 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -6,6 +6,9 @@
 from arboris.robots.urdf import urdf_parser
 
 import arboris
+import arboris.core
+import arboris.homogeneousmatrix
+import arboris.massmatrix
 import arboris.joints
 import arboris.shapes
 import arboris.constraints
@@ -19,8 +22,8 @@ np.set_printoptions(suppress=True)
 
 import os
 
-import arboris.visu
-arboris_simple_shapes_path = os.path.dirname(arboris.visu.__file__) + os.sep + "simple_shapes.dae"
+# the package arboris.visu itself is not imported: it requires the viewer
+arboris_simple_shapes_path = os.path.dirname(arboris.__file__) + os.sep + "visu" + os.sep + "simple_shapes.dae"
 
 #def closest_rotation_matrix(Rapp):
 #    return np.dot(Rapp,  np.linalg.inv( scipy.linalg.sqrtm(np.dot(Rapp.T, Rapp)) ) )
@@ -107,11 +110,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +154,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +192,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +207,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +263,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..42a8859 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = list(map(float, xyz))
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = list(map(float, xyz))
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = list(map(float, rpy))
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From 11863daa828f391062ff74685256422a495aa05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 38/73] fix: urdf: accept a mesh scale, which the parser gives
 as a list

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index c42de21..ad00649 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -131,7 +131,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else [float(v) for v in obj.scale]
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
-- 
2.43.0


From 5bc0fb60148fd3037a3a90eeed0b7d20cfbcee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 39/73] fix: urdf: a link without inertial has a null mass
 matrix, not None

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index ad00649..ac9b9b9 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -53,7 +53,7 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        body.mass = to_arboris(obj.inertial, np.zeros((6,6)))
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
-- 
2.43.0


From c43546b4633d0d85c048c43eebe9fb72cf16b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 40/73] fix: urdf: an origin may give only its position or only
 its rotation

---
 arboris/robots/urdf/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index ac9b9b9..d379131 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -73,8 +73,11 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        H          = np.eye(4)
+        if obj.position is not None:
+            H[0:3,3]   = obj.position
+        if obj.rotation is not None:
+            H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
-- 
2.43.0


From f91a001eb280a216dc76313279fb37317368798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 41/73] fix: urdf: joint axis may be missing (x by default) or
 rounded

A fixed joint has no axis, and an axis written with a few digits is not
normalized to 1e-9, as zaligned requires.
---
 arboris/robots/urdf/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index d379131..d513532 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -85,7 +85,15 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        if obj.axis is None:
+            axis = [1., 0., 0.]
+        elif len(obj.axis.split())==3:
+            axis = np.array([float(v) for v in obj.axis.split()])
+            if np.linalg.norm(axis) > 0:
+                axis = axis/np.linalg.norm(axis)
+            axis = axis.tolist()
+        else:
+            axis = obj.axis
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From fb240ec6a9e25b3c8fb453d63cde9c44258bb704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 42/73] fix: urdf: joints without limits, as fixed ones, have
 no limits to report

---
 arboris/robots/urdf/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index d513532..049cb57 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -264,7 +264,7 @@ class URDFConverter(object):
             # save all joints limits if it has been requested
             if self.save_joint_limits is True:
 
-                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC] and urdf_joint.limits is not None:
                     lower = urdf_joint.limits.lower
                     upper = urdf_joint.limits.upper
                     
@@ -345,6 +345,9 @@ class URDFConverter(object):
 
             name = self.prefix + joint_name + self.suffix
 
+            if urdf_joint.limits is None:
+                continue
+
             lower = urdf_joint.limits.lower
             upper = urdf_joint.limits.upper
             if (lower is not None) and (upper is not None):
@@ -360,7 +363,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            effort_limits[name] = urdf_joint.limits.effort
+            if urdf_joint.limits is not None:
+                effort_limits[name] = urdf_joint.limits.effort
 
         return effort_limits
 
@@ -372,7 +376,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            velocity_limits[name] = urdf_joint.limits.velocity
+            if urdf_joint.limits is not None:
+                velocity_limits[name] = urdf_joint.limits.velocity
 
         return velocity_limits
 
-- 
2.43.0


From f0e051f8d0242b9f829ad74ec8d27b37b3cb2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 43/73] fix: urdf: prefix and suffix made the joints' links and
 the root unknown

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 049cb57..35960a7 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -212,7 +212,7 @@ class URDFConverter(object):
 
             body = to_arboris(urdf_body)
             body.name = name
-            list_of_bodies[name] = body
+            list_of_bodies[body_name] = body
 
             # save all shapes for collision; we only want physical shapes, not visual shapes
             # visual shapes can be loaded later with function 'get_visual_shapes'
@@ -221,7 +221,7 @@ class URDFConverter(object):
             if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
-                shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
+                shape_frame = arboris.core.SubFrame( body, H_body_shape )
 
                 if   collision["shape"] == "box":
                     half_dims = np.array(collision["scale"])/2.
-- 
2.43.0


From f1bf01b43a196e9b0b6e7b5153538ae09054e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 44/73] fix: urdf: write the mimic element of a joint back to
 XML

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 42a8859..700ed01 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From bdcd372b9b374779093e031fa881cf61f15faf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 45/73] fix: SocketCom: end the simulation quietly when nobody
 connected

---
 arboris/observers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index eb2a222..826d310 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -451,7 +451,8 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send(b"close_connection")
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 2d35daf4580c8f9e30f6acb32c9418a1b5264bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 46/73] fix: port the COLLADA writer to Python 3

arboris.visu.dae_writer could not be imported (print statements), and wrote
bytes in a text file; pickle files have to be read as binary.
---
 arboris/visu/__init__.py   |  2 +-
 arboris/visu/dae_writer.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..0b2a77c 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,7 +80,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..86eee0f 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '"+node_id+"'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '"+parent_node_id+"'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '"+shape_id+"'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
-- 
2.43.0


From a8cc09e240636df48538c26c03bf365f7701cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 47/73] fix: DaenimCom: send the transforms on Python 3

Text and bytes were mixed, a map object was added to a list, and a message
could be sent in part.
---
 arboris/visu/visu_collada.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..f7d7a75 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -208,7 +208,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -223,13 +223,13 @@ class DaenimCom(SocketCom):
             msg += self.packing_transform(f.name, H)
 
         try:
-            self.conn.send(msg)
+            self.conn.sendall(msg.encode())
         except:
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + [str(v) for v in _H[0:3, :].reshape(12)])+"\n"
         return res
 
 
-- 
2.43.0


From 3e9dda2357ab11482dd66038d7db9ec9bef53f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 48/73] fix: COLLADA drawing options given by the user were
 dropped

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 86eee0f..4cef457 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -319,7 +319,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
-- 
2.43.0


From f308c58e91af9dbf8a32326f7fcf996470181dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 49/73] fix: COLLADA: bodies without name could not be written,
 daenim scenes lost the names of the rigid bodies

---
 arboris/visu/dae_writer.py   | 2 +-
 arboris/visu/visu_collada.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 4cef457..8a6c1b2 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -475,7 +475,7 @@ class pydaenimColladaDriver(DrawerDriver):
                     ),
                     E.inertia(" ".join(map(str, m_o_inertia))),
                 ),
-            sid=name
+            sid=name or ""
             )
         )
 
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index f7d7a75..631cabb 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -134,7 +134,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
@@ -143,7 +143,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         node = _get_void_node()
         node.transforms.append( collada.scene.MatrixTransform(H_body_com.flatten()) )
         
-        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia")
+        inertia_node = self.create_ellipsoid(m_o_inertia, color, (name or "")+".inertia")
         node.children.append(inertia_node)
         
         for c in inertia_node.children:
-- 
2.43.0


From 8705aa82444384d0f63c0f1e9143e9eb39765c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 50/73] fix: urdf: boxes were shown twice as large as they are

The box of simple_shapes.dae has half extents of 1, as the drawer assumes.
---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 35960a7..bb5ee2f 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -147,7 +147,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [d/2. for d in obj.dims] # half extents of the mesh are 1
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -224,7 +224,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( body, H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From f51866e20f664a05ba5a5a81df35e8cc797de772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 51/73] fix: COLLADA: adding whole files lost the instanced
 nodes and mixed files up

---
 arboris/visu/dae_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 8a6c1b2..b04a63e 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -217,7 +217,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
@@ -297,6 +297,9 @@ def _save_all_descendant_geometryNode(src_node, dest_dae):
                 dest_dae.effects.append(mat_node.target.effect)
     
     elif isinstance(src_node, collada.scene.Node):
+        if isinstance(src_node, collada.scene.NodeNode) and \
+           src_node.node.id not in dest_dae.nodes:
+            dest_dae.nodes.append(src_node.node)
         for child in src_node.children:
             _save_all_descendant_geometryNode(child, dest_dae)
     
-- 
2.43.0


From 1b4204341beefe460118592810b7bd8b00af0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 52/73] fix: view: the group of the simulation file was taken
 for its type

---
 arboris/visu/visu_collada.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 631cabb..31d0de9 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -280,7 +280,8 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
             subprocess.check_call((daenim_path, scene))
         else:
             anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
+            write_collada_animation(anim_file, scene, hdf5_file, "hdf5",
+                                    hdf5_group)
             subprocess.check_call((daenim_path, anim_file))
             os.remove(anim_file)
 
-- 
2.43.0


From c7ba38412fb83d9a4d1a1241c7329d5f0a3ddb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 53/73] fix: visu.view: the requested browser was ignored

---
 arboris/visu/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index 0b2a77c..3f70665 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -83,7 +83,7 @@ def view(world, browser=None, **kwargs):
     elif isinstance(world, str):
         collada_path = world
 
-    pydaenim.create_pydaenimViewer(collada_path, **kwargs)
+    pydaenim.create_pydaenimViewer(collada_path, browser=browser, **kwargs)
 
 
 
-- 
2.43.0


From 8e266e600443c2c7b6dd4502ff569cad15fe14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 54/73] fix: pydaenimCom: time lines of numpy integers could
 not be sent

---
 arboris/visu/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index 3f70665..bfd40bf 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -42,7 +42,7 @@ class pydaenimCom(Observer):
     def update(self, dt):
         """
         """
-        msg_list = ["update_transforms", self.world.current_time]
+        msg_list = ["update_transforms", float(self.world.current_time)]
         frame_dict = {}
 
         if self.flat:
-- 
2.43.0


From 3a082479a289edb4ab2e53a00296051c6566e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 55/73] fix: COLLADA: worlds with a slanted up vector could not
 be written

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index b04a63e..7183545 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -363,7 +363,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
-- 
2.43.0


From 43a74cf62c6a1a589b247a7f70c8fd98dfb35411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 56/73] fix: COLLADA: an element with the name of a moving
 frame could take its node, more than 100 equal names were not told apart

---
 arboris/visu/dae_writer.py   | 31 ++++++++++++++++++++-----------
 arboris/visu/visu_collada.py | 11 +++++++----
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 7183545..850fa4a 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -30,18 +30,21 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     """
     assert isinstance(world, World)
     if flat:
-        name_all_elements(world.getbodies(), True)
+        moving = list(world.getbodies())
     else:
-        nonflatlist = [j.frames[1] for j in world.getjoints()]
-        name_all_elements(nonflatlist, True)
+        moving = [j.frames[1] for j in world.getjoints()]
+    name_all_elements(moving, True)
     name_all_elements(world.itermovingsubframes(), True)
+    moving.extend(world.itermovingsubframes())
     
     if color_generator is None:
         color_generator = ColorGenerator( nb_colors=len(world.getbodies()) )
     
     world.update_geometric()
     
-    drawer = Drawer(pydaenimColladaDriver(dae_filename, scale, options), flat, color_generator)
+    driver = pydaenimColladaDriver(dae_filename, scale, options)
+    driver.reserve_names(moving)
+    drawer = Drawer(driver, flat, color_generator)
     world.parse(drawer)
     drawer.finish()
 
@@ -335,22 +338,28 @@ class pydaenimColladaDriver(DrawerDriver):
         self.ground_node = None
         self.scene       = None
         self._materials  = {}
-        self._names      = []
+        self._names      = ["ground"]
+        self._reserved   = set()
 
     def init(self):
         pass
 
-    def _get_collada_node(self, name):
+    def reserve_names(self, objects):
+        """ Keep the names of the moving elements for their own nodes. """
+        self._reserved.update(o.name for o in objects)
+
+    def _get_collada_node(self, name, moving=False):
         if not name:
             node = _get_void_node()
             return node
 
         new_name = name
-        if new_name in self._names:
-            for i in range(100):
+        if new_name in self._names or \
+           (new_name in self._reserved and not moving):
+            i = 0
+            while new_name in self._names or new_name in self._reserved:
                 new_name = name + "_{}".format(i)
-                if new_name not in self._names:
-                    break
+                i += 1
             print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
@@ -410,7 +419,7 @@ class pydaenimColladaDriver(DrawerDriver):
             parent.children.append(child)
 
     def create_transform(self, pose, is_constant, name=None):
-        node = self._get_collada_node(name)
+        node = self._get_collada_node(name, not is_constant)
         tranform_matrix = collada.scene.MatrixTransform(pose.flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
         node.transforms.append(tranform_matrix)
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 31d0de9..27cb6fd 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -38,18 +38,21 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     """
     assert isinstance(world, World)
     if flat:
-        name_all_elements(world.getbodies(), True)
+        moving = list(world.getbodies())
     else:
-        nonflatlist = [j.frames[1] for j in world.getjoints()]
-        name_all_elements(nonflatlist, True)
+        moving = [j.frames[1] for j in world.getjoints()]
+    name_all_elements(moving, True)
     name_all_elements(world.itermovingsubframes(), True)
+    moving.extend(world.itermovingsubframes())
     
     if color_generator is None:
         color_generator = ColorGenerator( nb_colors=len(world.getbodies()) )
     
     world.update_geometric()
     
-    drawer = Drawer(DaenimColladaDriver(dae_filename, scale, options), flat, color_generator)
+    driver = DaenimColladaDriver(dae_filename, scale, options)
+    driver.reserve_names(moving)
+    drawer = Drawer(driver, flat, color_generator)
     world.parse(drawer)
     drawer.finish()
 
-- 
2.43.0


From 72be212d76f4573a378c28d0c902096d7bb3609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 57/73] fix: urdf: joint axes named y or z could not be loaded

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index bb5ee2f..41a85c8 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -93,7 +93,7 @@ def to_arboris( obj , default=None):
                 axis = axis/np.linalg.norm(axis)
             axis = axis.tolist()
         else:
-            axis = obj.axis
+            axis = {"x": [1,0,0], "y": [0,1,0], "z": [0,0,1]}.get(obj.axis.strip().lower(), obj.axis)
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From 6db31fbb9b6b1ea2e9bb17e38fc72d0c0082f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 58/73] fix: bodies lighter than 1e-10 kg lost the part of
 their velocity effects due to an off-centre mass

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 6cb9cd8..5ab3dfd 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1407,7 +1407,7 @@ class Body(NamedObject, Frame):
             [[             0, -self.twist[2],  self.twist[1]],
              [ self.twist[2],              0, -self.twist[0]],
              [-self.twist[1],  self.twist[0],              0]])
-        if self.mass[5, 5] <= 1e-10: #TODO: avoid hardcoded value
+        if self.mass[5, 5] <= 0.:
             rx = zeros((3, 3))
         else:
             rx = self.mass[0:3, 3:6]/ self.mass[5,5]
-- 
2.43.0


From b4aa724401e31eba57ddfb0f080618c59aaaa346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 59/73] fix: positions and velocities of joints given as
 integers truncated the values set later

---
 arboris/core.py   | 2 +-
 arboris/joints.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 5ab3dfd..6e77c39 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -285,7 +285,7 @@ class LinearConfigurationSpaceJoint(Joint):
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..67fffab 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From fcda2a5077445b803e625334cca9ef32882c180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 60/73] fix: gains and targets of PD controllers given as
 integers truncated the values set later

---
 arboris/controllers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index d794418..a0fed8d 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -137,22 +137,22 @@ class ProportionalDerivativeController(Controller):
         if kp is None:
             self.kp = zeros((self._cndof, self._cndof))
         else :
-            self.kp = array(kp).reshape((self._cndof, self._cndof))
+            self.kp = array(kp, dtype=float).reshape((self._cndof, self._cndof))
 
         if kd is None:
             self.kd = zeros((self._cndof, self._cndof))
         else :
-            self.kd = array(kd).reshape((self._cndof, self._cndof))
+            self.kd = array(kd, dtype=float).reshape((self._cndof, self._cndof))
 
         if gpos_des is None:
             self.gpos_des = zeros(self._cndof)
         else:
-            self.gpos_des = array(gpos_des).reshape(self._cndof)
+            self.gpos_des = array(gpos_des, dtype=float).reshape(self._cndof)
 
         if gvel_des is None:
             self.gvel_des = zeros(self._cndof)
         else:
-            self.gvel_des = array(gvel_des).reshape(self._cndof)
+            self.gvel_des = array(gvel_des, dtype=float).reshape(self._cndof)
 
     def init(self, world):
         """ Initialize controller and configure for one :class:`~arboris.core.World` instance.
-- 
2.43.0


From fe4e35d2d8740f5faf81ac99ed39fba53b3e2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 61/73] fix: exponential of small twists kept one term short, a
 slow spin shrank until the simulation stopped

---
 arboris/twistvector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/twistvector.py b/arboris/twistvector.py
index c05ec07..60b6ab7 100644
--- a/arboris/twistvector.py
+++ b/arboris/twistvector.py
@@ -66,9 +66,11 @@ def exp(tw):
         sc = sin(t)/t
         dsc = (t-sin(t))/t**3
     else:
-        cc = 1./2.
+        # with less terms the rotation would shrink at each step of a long
+        # simulation
+        cc = 1./2.-t**2/24.
         sc = 1.-t**2/6.
-        dsc = 1./6.
+        dsc = 1./6.-t**2/120.
 
     R = eye(3) + sc*wx + cc*dot(wx, wx)
     p = dot(sc*eye(3) + cc*wx + dsc*outer(w,w), v)
-- 
2.43.0


From 3bec456aeee2fdaa8e79230a11ba76e27bf25695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 62/73] fix: worlds with a body without mass but with a
 rotational inertia could not be drawn

---
 arboris/visu/world_drawer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index 8f3b326..de74af2 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -357,8 +357,10 @@ class Drawer(object):
         if isinstance(obj, arboris.core.Body):
             color = self._color_generator.get_color(obj)
             if norm(obj.mass)>10e-8:
-                node = self._driver.create_inertia(obj.mass, color, obj.name)
-                self._driver.add_child(self.frame_nodes[obj], node, 'inertia')
+                # a rotor without mass has no principal frame to draw
+                if obj.mass[5, 5] > 0.:
+                    node = self._driver.create_inertia(obj.mass, color, obj.name)
+                    self._driver.add_child(self.frame_nodes[obj], node, 'inertia')
         if isinstance(obj, arboris.core.SubFrame) and \
                 not(obj in self.frame_nodes):
             color = self._color_generator.get_color(obj)
-- 
2.43.0


From ba032f22cd4597ec7a946439fbb8382082d5be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 63/73] fix: urdf: vectors given as arrays were written in a
 way that could not be read back

---
 arboris/robots/urdf/urdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 700ed01..53074c7 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -28,7 +28,7 @@ def pfloat(x):
 def set_attribute(node, name, value):
     if value is None:
         return
-    if type([]) == type(value) or type(()) == type(value):
+    if hasattr(value, '__iter__') and not hasattr(value, 'split'):
         value = " ".join( [pfloat(a) for a in value] )
     elif type(value) == type(0.0):
         value = pfloat(value)
-- 
2.43.0


From d13319b8ec3ba12553fb78d2b57f2990fbc605ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 64/73] fix: urdf: files were read in the encoding of the user,
 not in the one they declare

---
 arboris/robots/urdf/urdf_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 53074c7..c777d8d 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -703,8 +703,9 @@ class URDF(object):
     @staticmethod
     def load_xml_file(filename, verbose=True):
         """Parse a file to create a URDF robot structure."""
-        f = open(filename, 'r')
-        return URDF.parse_xml_string(f.read(), verbose)
+        # bytes, so that the encoding declared in the file is the one used
+        with open(filename, 'rb') as f:
+            return URDF.parse_xml_string(f.read(), verbose)
 
 #    @staticmethod
 #    def load_from_parameter_server(key = 'robot_description', verbose=True):
-- 
2.43.0


From a05a5373dc8682b3d108f4d7c4467ee1ff307fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 65/73] fix: urdf: files with a document type or a processing
 instruction could not be read

---
 arboris/robots/urdf/urdf_parser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index c777d8d..c8f7fcd 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -44,10 +44,7 @@ def short(doc, name, key, value):
 def children(node):
     _children = []
     for child in node.childNodes:
-        if child.nodeType is node.TEXT_NODE \
-                or child.nodeType is node.COMMENT_NODE:
-            continue
-        else:
+        if child.nodeType == node.ELEMENT_NODE:
             _children.append(child)
     return _children
 
@@ -679,7 +676,7 @@ class URDF(object):
         """Parse a string to create a URDF robot structure."""
         urdf = URDF()
         base = xml.dom.minidom.parseString(xml_string)
-        robot = children(base)[0]
+        robot = base.documentElement
         urdf.name = robot.getAttribute('name')
 
         for node in children(robot):
-- 
2.43.0


From e5b75c09ee9538a6f0106cf4c615adf04ee97735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 66/73] fix: urdf: joints whose axis is given as numbers could
 not be loaded

---
 arboris/robots/urdf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 41a85c8..8ba5a6d 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -87,8 +87,9 @@ def to_arboris( obj , default=None):
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
         if obj.axis is None:
             axis = [1., 0., 0.]
-        elif len(obj.axis.split())==3:
-            axis = np.array([float(v) for v in obj.axis.split()])
+        elif not hasattr(obj.axis, "split") or len(obj.axis.split())==3:
+            axis = obj.axis.split() if hasattr(obj.axis, "split") else obj.axis
+            axis = np.array([float(v) for v in axis])
             if np.linalg.norm(axis) > 0:
                 axis = axis/np.linalg.norm(axis)
             axis = axis.tolist()
-- 
2.43.0


From 22b91f24e6509eab853946387dc29dc94bf4c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 67/73] fix: urdf: no shape table could be had of a robot
 parsed after the creation of its converter

---
 arboris/robots/urdf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 8ba5a6d..71a2ff2 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -195,6 +195,7 @@ class URDFConverter(object):
 
 
     def parseURDF(self, urdf_file_name):
+        self.urdf_file_name = urdf_file_name
         self.robot = urdf_parser.URDF.load_xml_file(urdf_file_name)
 
 
-- 
2.43.0


From 8b9768c14d1f0e9255533eae0ff5fe9eb58d2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 68/73] fix: observers given by an iterator were initialised
 but never updated

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 6e77c39..205543e 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1484,7 +1484,7 @@ def simulate(world, timeline, observers=()):
     if isinstance(observers, dict):
         observers_list = observers.values()
     else:
-        observers_list = observers
+        observers_list = list(observers) # may be an iterator, and is read thrice
 
     if world.current_time != timeline[0]:
         warnings.warn('world.current_time != timeline[0]: \
-- 
2.43.0


From 34a23e6defa3eb5a362a385dbc35979ceb3b225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 69/73] fix: PD controllers could not be given their joints by
 an iterator

---
 arboris/controllers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index a0fed8d..e25a342 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -123,6 +123,8 @@ class ProportionalDerivativeController(Controller):
         Controller.__init__(self, name=name)
         self._cndof = 0
         dof_map = []
+        if not hasattr(joints, '__len__'):
+            joints = list(joints) # may be an iterator, and is read at each step
         for j in joints:
             if not isinstance(j, LinearConfigurationSpaceJoint):
                 raise ValueError('Joints must be ' +\
-- 
2.43.0


From 7c2f8bd3e6283bd344265187575c4a49f3f5a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 70/73] fix: centre of mass observers given their bodies by an
 iterator were empty in a second simulation

---
 arboris/observers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arboris/observers.py b/arboris/observers.py
index 826d310..39f2a8b 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -475,6 +475,8 @@ class CoMObserver(Observer):
 
         """
         Observer.__init__(self, name)
+        if not hasattr(bodies, '__len__'):
+            bodies = list(bodies) # may be an iterator, and is read at each init
         self.user_bodies = bodies
         self.compute_Jacobians = compute_Jacobians
 
-- 
2.43.0


From e12db451997467c0dadce012873ca78b00bd1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:55 +0000
Subject: [PATCH 71/73] fix: arrays of collada animations announced one value
 per matrix instead of sixteen

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 850fa4a..d43995a 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -110,7 +110,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
             str_src_data = str_src_data.replace(".0 ", " ")
         else:
             str_src_data = " ".join(map(str, src_data))
-        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(count)) )
+        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(len(src_data))) )
         
         src_elem.append( E.technique_common(
                             E.accessor(
-- 
2.43.0


From 5828a349fa3a3f69f047baad1e20010b013c031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:31 +0000
Subject: [PATCH 72/73] fix: flags given as numpy booleans or integers were
 taken for False by some modules and True by others

---
 arboris/core.py                 | 2 +-
 arboris/observers.py            | 2 +-
 arboris/robots/icub.py          | 4 ++--
 arboris/robots/urdf/__init__.py | 4 ++--
 arboris/visu/world_drawer.py    | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 205543e..7ed5bae 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -146,7 +146,7 @@ def name_all_elements(nlist, check_unicity=False):
         if elem.name is None:
             elem.name = str(id(elem))
     # check duplicate name
-    if check_unicity is True:
+    if check_unicity:
         list_name = [e.name for e in nlist]
         set_name  = set(list_name)
         if len(list_name) != len(set_name):
diff --git a/arboris/observers.py b/arboris/observers.py
index 39f2a8b..f200724 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -510,7 +510,7 @@ class CoMObserver(Observer):
             H_0_com_i = dot(self.bodies[i].pose, self.H_body_com[i])
             self._CoMPosition += self.mass[i] * H_0_com_i[0:3,3]
             
-            if self.compute_Jacobians is True:
+            if self.compute_Jacobians:
                 ##### For jacobian
                 H_com_i_com2 = zeros((4,4))       #com2 is aligned with ground
                 H_com_i_com2[0:3, 0:3] = H_0_com_i[0:3,0:3].T
diff --git a/arboris/robots/icub.py b/arboris/robots/icub.py
index a19d23d..7007cfd 100644
--- a/arboris/robots/icub.py
+++ b/arboris/robots/icub.py
@@ -329,7 +329,7 @@ def add(w, is_fixed=False, create_shapes=True, create_contacts=True):
                    bodies[child])
 
 
-    if create_shapes is True:
+    if create_shapes:
         ## body shapes creations
         for name, data in bodies_shapes_data.items():
             for dims, H in data: # get dims, mass and transformation from data
@@ -344,7 +344,7 @@ def add(w, is_fixed=False, create_shapes=True, create_contacts=True):
                     raise ValueError
                 w.register(sh)
 
-    if create_contacts is True:
+    if create_contacts:
         ## contact shapes creation
         for name, data in shapes_data.items():
             parent, dims, Hpf = data
diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 71a2ff2..e6f6c0a 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -264,7 +264,7 @@ class URDFConverter(object):
             world.add_link( parent_joint_frame, joint_instance, child_joint_frame )
 
             # save all joints limits if it has been requested
-            if self.save_joint_limits is True:
+            if self.save_joint_limits:
 
                 if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC] and urdf_joint.limits is not None:
                     lower = urdf_joint.limits.lower
@@ -287,7 +287,7 @@ class URDFConverter(object):
             ground = arboris.core.SubFrame( world.ground, self.H_init)
 
         name = self.prefix + self.root_joint_name + self.suffix
-        if self.fixed_base is True:
+        if self.fixed_base:
             world.add_link( ground, arboris.joints.FixedJoint(name=name), root_body )
         else:
             world.add_link( ground, arboris.joints.FreeJoint(name=name), root_body )
diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index de74af2..570437f 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
         if isinstance(obj, arboris.core.MovingSubFrame) and \
                 not(obj in self.frame_nodes):
             color = self._color_generator.get_color(obj)
-            if self._flat is True:
+            if self._flat:
                 node = self._add_frame(self._ground_node,
                     obj.pose, False, obj.name, color)
             else:
-- 
2.43.0


From 32fe846716b2ef5d4a6e117dc48e634ef8c62850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:48 +0000
Subject: [PATCH 73/73] fix: a refused link or replacement left the world with
 some of the links, or without the old joint

---
 arboris/core.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 7ed5bae..b7c16b6 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -536,13 +536,22 @@ class World(NamedObject):
                 any(b is frame1.body for b in frame0.body.iter_ancestor_bodies()):
             raise ValueError("frame1's body is frame0's body or one of its " + \
             "ancestors, this link would create a kinematic loop.")
+        subframes = list(self._subframes)
         joint.set_frames(frame0, frame1)
         frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
         if len(args) > 0:
-            self.add_link(*args)
+            try:
+                self.add_link(*args)
+            except Exception:
+                # none of the links is added when one of them is refused
+                self._subframes[:] = subframes
+                frame0.body.childrenjoints.remove(joint)
+                frame1.body.parentjoint = None
+                joint.set_frames(None, None)
+                raise
 
     def replace_joint(self, old_joint, *args):
         """ Replace a joint by another joint or by another kinematic chain.
@@ -578,9 +587,16 @@ class World(NamedObject):
             body1 = args[-1].body
             assert old_joint.frame0.body is body0
             assert old_joint.frame1.body is body1
+            old_frames = old_joint.frames
             body1.parentjoint = None
             old_joint.set_frames(None, None)
-            self.add_link(*args)
+            try:
+                self.add_link(*args)
+            except Exception:
+                # the old joint stays when its replacement is refused
+                old_joint.set_frames(*old_frames)
+                body1.parentjoint = old_joint
+                raise
             # new_joint is now the last in body0.childrenjoint
             # and old_joint is still somewhere in body0.childrenjoint
             # let's fix that
-- 
2.43.0

