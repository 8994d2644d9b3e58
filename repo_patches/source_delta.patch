From 99df41e5eef83d774b5aff8a1d38c80e0ad64b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 01/18] fix: finite_maneuver must consume propellant, not add
 it

The burn duration was computed with the wrong sign, so every finite burn
increased the propellant mass.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..e94690f 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From a5b9e177968476da13834503354d0cb58b569186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:18 +0000
Subject: [PATCH 02/18] fix: finite_maneuver must rotate the RIC burn into GCRF

HCW.frame_matrix maps GCRF to RIC; the burn vector is given in RIC, so the
transpose has to be applied.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index e94690f..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 236a5ddfc7a44488040dc6deaacc339f73b71492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:20 +0000
Subject: [PATCH 03/18] fix: misplaced parenthesis in the Moon's ecliptic
 latitude (equation 3.49)

The 541" sin(l') term belongs to the outer sine's argument, not to the
argument of sin(2F).
---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From a96817223d4e14f6fcce749f6fdfd7d17e955616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:22 +0000
Subject: [PATCH 04/18] fix: visual_magnitude must use the target's size and
 albedo

The observer's own body radius and albedo were used.
---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..47bc010 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From d17114d2bbbebdca7af662254f88c1da09acd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:35 +0000
Subject: [PATCH 05/18] fix: track_state must follow the newly requested target

While already in target mode, a second track_state kept pointing at the
previous target.
---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 47bc010..d682765 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,10 +303,11 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
+        self.tracked_target = target
+
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
-            self.tracked_target = target
             self.slewing = True
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
-- 
2.43.0


From a9ed81a57be4b7426eaff099203009a6cf55fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:24 +0000
Subject: [PATCH 06/18] fix: copying or propagating a GCRF state must keep
 use_perturbations

The flag was reset to True by copy() and by every RK4 (sub)step, so a
two-body propagation could not be requested.
---
 src/openspace/coordinates/states.py   | 6 ++++++
 src/openspace/propagators/inertial.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..28b0694 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,12 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state"""
+        state: GCRF = super().copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..beb368b 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -51,15 +51,18 @@ class RK4:
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1.use_perturbations = self.state.use_perturbations
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2.use_perturbations = self.state.use_perturbations
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3.use_perturbations = self.state.use_perturbations
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,11 +70,13 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
-- 
2.43.0


From 33eb9bd4582ec2fba5806de00211782d2458253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 07/18] fix: burns longer than one integration step must keep
 losing mass

Every RK4 step of a maneuver restarted from the mass at ignition, so the
delta-v of a multi-step burn fell short of the rocket equation.
---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index beb368b..977bc67 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -78,6 +78,9 @@ class RK4:
         )
         self.state.use_perturbations = use_perturbations
 
+        # Remaining steps of a burn start with the mass that is left
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From 94f2571bfdedcfc94da15c8e1c95c362d15ab191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 08/18] fix: Eccentricity.from_a_p must not raise for circular
 orbits

Rounding makes 1 - p/a slightly negative for about a third of circular
orbits, which ended ClassicalElements.from_ijk in a math domain error.
---
 src/openspace/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..fb935ec 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,7 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        return sqrt(max(0, 1 - p / a))
 
 
 class Flattening:
-- 
2.43.0


From 38e3bf642da71702189f7b7b8d52c0479813576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:29 +0000
Subject: [PATCH 09/18] fix: to_lla must not raise at the poles

The sine of the latitude exceeds one by rounding for about half of the
positions on the polar axis.
---
 src/openspace/coordinates/positions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..9140faa 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -252,7 +252,7 @@ class _PositionConvertITRF:
 
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
-        arg = (eps2 + 1.0) * (d / n)
+        arg = max(-1.0, min(1.0, (eps2 + 1.0) * (d / n)))
         lamb: float = asin(arg)
 
         # Equation 2.77g
-- 
2.43.0


From 9b7f00d79de49a43dc7d40f094d8fd260946b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:30 +0000
Subject: [PATCH 10/18] fix: angular noise on a vector along z must not divide
 by zero

---
 src/openspace/math/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..d5ce9a1 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,10 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            axis = Vector3D(1, 0, 0)
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From 05d7eee5a8f2483a48485331f3575d5b717822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:23 +0000
Subject: [PATCH 11/18] fix: impulsive maneuvers must keep the propagation
 settings

---
 src/openspace/bodies/artificial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index d682765..480c598 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,11 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
+        state: GCRF = StateConvert.hcw.to_gcrf(
+            HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
+        state.use_perturbations = self.propagator.state.use_perturbations
+        self.propagator.state = state
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
-- 
2.43.0


From da56252e202d432f9490f220e05bb7af30762a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:25 +0000
Subject: [PATCH 12/18] fix: attitude must follow the state after a maneuver

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 480c598..0d70865 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -140,6 +140,7 @@ class Spacecraft:
         )
         state.use_perturbations = self.propagator.state.use_perturbations
         self.propagator.state = state
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -159,6 +160,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From d269d114c63d77f3ebdb0ed7d872c0cc7c6a862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 13/18] fix: slew to the current position of a target at
 another epoch

---
 src/openspace/bodies/artificial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 0d70865..b78e68c 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -313,6 +313,10 @@ class Spacecraft:
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.slewing = True
+
+            # Slew to where the target is now if epochs are not in sync
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
 
-- 
2.43.0


From 0472880a2f806e380a6a51d9b9dc025d81cb72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:33 +0000
Subject: [PATCH 14/18] fix: acquire seeds the filter with the target at the
 filter's epoch

---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index b78e68c..e3c5838 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -177,10 +177,11 @@ class Spacecraft:
         :type seed: Spacecraft
         """
 
+        # Tracking brings the seed to the epoch of the filter
+        self.track_state(seed)
         self.filter = RelativeKalman(
             self.current_epoch(), Hill(StateConvert.gcrf.to_hcw(self.current_state(), seed.current_state()), self.sma())
         )
-        self.track_state(seed)
 
     def observe_wfov(self, target: "Spacecraft") -> SpaceObservation:
         """produce a simulated observation from the wfov
-- 
2.43.0


From 3f65508f6c42b51ffc220400f092f5b79c1ab522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:56 +0000
Subject: [PATCH 15/18] fix: argument of latitude of equatorial orbits

---
 src/openspace/math/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index fb935ec..d45739d 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -845,6 +845,11 @@ class ArgumentOfLatitude:
            find equation reference
         """
         u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+
+        # Equatorial orbits have no node, measure from the direction reported as such
+        if w.x == 0 and w.y == 0:
+            node: float = RightAscensionNode.from_w(w)
+            u = atan2(w.z * (r.y * cos(node) - r.x * sin(node)), r.x * cos(node) + r.y * sin(node))
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From 9be7e1d1ecea491ee4596dba6aee5d4bb572ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:38 +0000
Subject: [PATCH 16/18] fix: eccentricity from Gauss's method with the first
 position 90 degrees from perigee

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..87f082e 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -76,7 +76,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 0840fda3ca9aef6b63de1cb6df574d6e7e83ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:22 +0000
Subject: [PATCH 17/18] fix: Gauss's method for equatorial orbits

---
 src/openspace/estimation/iod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 87f082e..bc41604 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import EquationsOfMotion
 from openspace.math.linalg import Vector3D
 
 
@@ -39,7 +40,7 @@ class Gauss:
 
         # equation 2.111
         w: Vector3D = ea.cross(e0)
-        ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
+        ua: float = EquationsOfMotion.U.from_r_w(ra, w)
         inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
         raan: float = atan2(w.x, -w.y)
         if inc < 0:
-- 
2.43.0


From f69ce27b531130a14832af21829bf4e130b3c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:34 +0000
Subject: [PATCH 18/18] fix: each Kalman filter owns its covariance and noise
 matrices

---
 src/openspace/estimation/filtering.py | 4 ++--
 src/openspace/math/linalg.py          | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/filtering.py b/src/openspace/estimation/filtering.py
index 04c7deb..1f2338c 100644
--- a/src/openspace/estimation/filtering.py
+++ b/src/openspace/estimation/filtering.py
@@ -63,13 +63,13 @@ class RelativeKalman:
         self.x10: Vector6D
 
         #: current covariance of the state
-        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE
+        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE.copy()
 
         #: predicted covariance of the state
         self.p10: Matrix6D
 
         #: processing noise of the filter
-        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE
+        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE.copy()
 
         #: state transition matrix for the filter state
         self.f: Matrix6D = self.propagator.system_matrix(0)
diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index d5ce9a1..aeb1b69 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -878,6 +878,14 @@ class Matrix6D:
             Vector6D(0, 0, 0, 0, 0, 1),
         )
 
+    def copy(self) -> "Matrix6D":
+        """create a replica of the matrix
+
+        :return: matrix with elements equal to the calling matrix
+        :rtype: Matrix6D
+        """
+        return Matrix6D(self.row1, self.row2, self.row3, self.row4, self.row5, self.row6)
+
     def diagonal(self) -> Vector6D:
         """create a vector whose elements are equal to the diagonal of the matrix
 
-- 
2.43.0

