From f90e3133f57f07911e605644337fcd6372d8c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:51 +0000
Subject: [PATCH 01/40] fix: do not modify the time array passed to a ProMP

The times were normalized in place. The caller's array was changed, and
integer times raised an error.
---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 9ab997d..fdca912 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -493,7 +493,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         activations = np.exp(
             -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))
@@ -555,7 +555,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
-- 
2.43.0


From 5f50bd1f582d222de5b5d879a56589faf9696771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:07 +0000
Subject: [PATCH 02/40] fix: compute ProMP velocities with respect to time

Velocities were derivatives with respect to the normalized time, so they
were wrong by the factor of the duration unless the duration was 1.
---
 movement_primitives/promp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index fdca912..d54d653 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -555,9 +555,11 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T = T / np.max(T)
+        t_max = np.max(T)
+        T = T / t_max
 
-        rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
+        # derivative with respect to time, not normalized time
+        rbfs_deriv = (self.centers[:, np.newaxis] - T) / (h * t_max)
         rbfs_deriv *= rbfs
         rbfs_deriv_sum_per_step = rbfs_deriv.sum(axis=0)
         rbfs_deriv = (
-- 
2.43.0


From c240faf2ee2b4017819dfee4126b96dc393e5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:07 +0000
Subject: [PATCH 03/40] fix: place basis functions relative to the start time

The centers were computed as if the movement always started at 0.
Imitation of a demonstration that starts at another time was wrong.
---
 movement_primitives/dmp/_forcing_term.py        | 3 +--
 movement_primitives/dmp/_state_following_dmp.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index 3a88202..d6e983b 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -60,8 +60,7 @@ class ForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_weights_per_dim):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 00cb73a..c38eab3 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -101,8 +101,7 @@ class StateFollowingForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_viapoints):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From 2a116c886ca36dc5d98ec6afb5f2729da13fb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 04/40] fix: copy configured start and goal states

References to the caller's arrays were stored. Modifying a demonstration
after imitation, or a goal after configure, silently changed the movement.
Integer arrays were stored as they were and broke execution later.
---
 movement_primitives/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index d9ef74e..403a627 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -112,22 +112,22 @@ class PointToPointMovement(abc.ABC):
 
         if start_y is not None:
             check_1d_array_length(start_y, "start_y", self.n_dims)
-            self.start_y = start_y
+            self.start_y = np.array(start_y, dtype=float)
         if start_yd is not None:
             check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
-            self.start_yd = start_yd
+            self.start_yd = np.array(start_yd, dtype=float)
         if start_ydd is not None:
             check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
-            self.start_ydd = start_ydd
+            self.start_ydd = np.array(start_ydd, dtype=float)
         if goal_y is not None:
             check_1d_array_length(goal_y, "goal_y", self.n_dims)
-            self.goal_y = goal_y
+            self.goal_y = np.array(goal_y, dtype=float)
         if goal_yd is not None:
             check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
-            self.goal_yd = goal_yd
+            self.goal_yd = np.array(goal_yd, dtype=float)
         if goal_ydd is not None:
             check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
-            self.goal_ydd = goal_ydd
+            self.goal_ydd = np.array(goal_ydd, dtype=float)
 
     @abc.abstractmethod
     def step(self, last_y, last_yd):
-- 
2.43.0


From 3644d524473dcffe5c1f602ccc315aa2daff99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 05/40] fix: leave configuration unchanged if a value is
 rejected

All arguments of configure are checked before the first one is stored, so
that an error does not leave a partially changed configuration.
---
 movement_primitives/base.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index 403a627..00ba683 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -107,26 +107,32 @@ class PointToPointMovement(abc.ABC):
         ValueError
             If the length of the configured meta parameter is not correct.
         """
+        if start_y is not None:
+            check_1d_array_length(start_y, "start_y", self.n_dims)
+        if start_yd is not None:
+            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
+        if start_ydd is not None:
+            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
+        if goal_y is not None:
+            check_1d_array_length(goal_y, "goal_y", self.n_dims)
+        if goal_yd is not None:
+            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
+        if goal_ydd is not None:
+            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
+
         if t is not None:
             self.t = t
-
         if start_y is not None:
-            check_1d_array_length(start_y, "start_y", self.n_dims)
             self.start_y = np.array(start_y, dtype=float)
         if start_yd is not None:
-            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
             self.start_yd = np.array(start_yd, dtype=float)
         if start_ydd is not None:
-            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
             self.start_ydd = np.array(start_ydd, dtype=float)
         if goal_y is not None:
-            check_1d_array_length(goal_y, "goal_y", self.n_dims)
             self.goal_y = np.array(goal_y, dtype=float)
         if goal_yd is not None:
-            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
             self.goal_yd = np.array(goal_yd, dtype=float)
         if goal_ydd is not None:
-            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
             self.goal_ydd = np.array(goal_ydd, dtype=float)
 
     @abc.abstractmethod
-- 
2.43.0


From 9f9db4c34598f45fcaf0a503677ed8e7f2bafa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 06/40] fix: imitate demonstrations given as integer arrays

Velocities and accelerations were stored in arrays of the demonstration's
type, so that they were truncated for integer demonstrations.
---
 movement_primitives/dmp/_dmp.py                     | 4 ++--
 movement_primitives/dmp/_dmp_with_final_velocity.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 99ceec8..c76c613 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -661,12 +661,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     """
     n_dims = Y.shape[1]
     DT = np.gradient(T)
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     for d in range(n_dims):
         Yd[:, d] = np.gradient(Y[:, d]) / DT
     if not allow_final_velocity:
         Yd[-1, :] = 0.0
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     for d in range(n_dims):
         Ydd[:, d] = np.gradient(Yd[:, d]) / DT
     Ydd[-1, :] = 0.0
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index f3aa026..6c68015 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -315,12 +315,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     n_dims = Y.shape[1]
     DT = np.diff(T)
 
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     Yd[0] = 0.0
     for d in range(n_dims):
         Yd[1:, d] = np.diff(Y[:, d]) / DT
 
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     Ydd[0] = 0.0
     for d in range(n_dims):
         Ydd[1:, d] = np.diff(Yd[:, d]) / DT
-- 
2.43.0


From cc378e9cc58dc44fb8c9ec875b0daf1e30f56779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 07/40] fix: use the right gains for smooth scaling of dual
 Cartesian DMPs

beta_y has 12 entries and must be accessed with velocity indices. The
position of the right arm used the gains of other dimensions.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 movement_primitives/dmp_fast.pyx               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index ed05aac..71ef423 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -117,7 +117,7 @@ def dmp_step_dual_cartesian_python(
                     tracking_error[ops]) / dt
 
         if smooth_scaling:
-            smoothing = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+            smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
         else:
             smoothing = 0.0
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 55743f2..e122b45 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -638,7 +638,7 @@ cpdef dmp_step_dual_cartesian(
         # position components
         for pps, pvs in POS_INDICES:
             if smooth_scaling:
-                smoothing_pos = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+                smoothing_pos = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
             else:
                 smoothing_pos = 0.0
             current_ydd[pvs] = (
-- 
2.43.0


From 4512972e51cd0d4f2b98ca384dc78f9dbd1c4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 08/40] fix: return a copy of the weights

get_weights returned a view. A saved weight vector changed with the next
call of set_weights or imitate.
---
 movement_primitives/dmp/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 2bfa240..6ff30c3 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -41,7 +41,7 @@ class WeightParametersMixin:
         weights : array, shape (N * n_weights_per_dim,)
             Current weights of the DMP. N depends on the type of DMP
         """
-        return self.forcing_term.weights_.ravel()
+        return self.forcing_term.weights_.flatten()
 
     def set_weights(self, weights):
         """Set weight vector of DMP.
-- 
2.43.0


From a61cd01991d6be51f0b283598f1ca40aedf8dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 09/40] fix: reject weight vectors of wrong length in Cartesian
 DMPs

A vector that was too short was broadcast to all rotation dimensions, and
other wrong lengths raised an error after the position weights had been
replaced.
---
 movement_primitives/dmp/_cartesian_dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 0182b46..43836ff 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -456,10 +456,12 @@ class CartesianDMP(DMPBase):
             New weights of the DMP.
         """
         n_pos_weights = self.forcing_term_pos.weights_.size
-        self.forcing_term_pos.weights_[:, :] = weights[:n_pos_weights].reshape(
-            -1, self.n_weights_per_dim)
-        self.forcing_term_rot.weights_[:, :] = weights[n_pos_weights:].reshape(
-            -1, self.n_weights_per_dim)
+        weights_pos = weights[:n_pos_weights].reshape(
+            *self.forcing_term_pos.shape)
+        weights_rot = weights[n_pos_weights:].reshape(
+            *self.forcing_term_rot.shape)
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
 
 def dmp_quaternion_imitation(
-- 
2.43.0


From 2a7f1e90b44d1b1575c97b7e39e4bc9ccedf13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 10/40] fix: return copies of the state from state following
 DMPs

The internal arrays were returned and overwritten by the next step.
---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index c38eab3..5f1c0b2 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -60,7 +60,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
             forcing_term=self.forcing_term,
             coupling_term=coupling_term,
             int_dt=self.int_dt)
-        return self.current_y, self.current_yd
+        return np.copy(self.current_y), np.copy(self.current_yd)
 
     def open_loop(self, run_t=None, coupling_term=None):
         return state_following_dmp_open_loop(
-- 
2.43.0


From ca2b68197d9767bad96e5f31e1317c73860c7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:20 +0000
Subject: [PATCH 11/40] fix: keep the execution time if an invalid one is
 rejected

The invalid value was stored before it was checked.
---
 movement_primitives/dmp/_cartesian_dmp.py           | 2 ++
 movement_primitives/dmp/_dmp.py                     | 2 ++
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 43836ff..8787a81 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -259,6 +259,8 @@ class CartesianDMP(DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything changes if the value is invalid
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights_pos = self.forcing_term_pos.weights_
         weights_rot = self.forcing_term_rot.weights_
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index c76c613..52d300f 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -436,6 +436,8 @@ class DMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything changes if the value is invalid
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 6c68015..adff77c 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -84,6 +84,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything changes if the value is invalid
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 71ef423..88b4bda 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -259,6 +259,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything changes if the value is invalid
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
-- 
2.43.0


From 9e7ff81eddf11da4bd348b24a486bd4e9820f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:28 +0000
Subject: [PATCH 12/40] fix: use seed 0 for toy data if no random state is
 given

The default random state was created once and shared by all calls, so that
only the first call was made with the documented seed.
---
 movement_primitives/data/_toy_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/data/_toy_1d.py b/movement_primitives/data/_toy_1d.py
index d93fe03..184921c 100644
--- a/movement_primitives/data/_toy_1d.py
+++ b/movement_primitives/data/_toy_1d.py
@@ -3,7 +3,7 @@ import numpy as np
 
 def generate_1d_trajectory_distribution(
         n_demos, n_steps, initial_offset_range=3.0, final_offset_range=0.1,
-        noise_per_step_range=20.0, random_state=np.random.RandomState(0)):
+        noise_per_step_range=20.0, random_state=None):
     """Generates toy data for testing and demonstration.
 
     Parameters
@@ -34,6 +34,9 @@ def generate_1d_trajectory_distribution(
     Y : array, shape (n_demos, n_steps, 1)
         Demonstrations (positions)
     """
+    if random_state is None:
+        random_state = np.random.RandomState(0)
+
     T = np.linspace(0, 1, n_steps)
     Y = np.empty((n_demos, n_steps, 1))
 
-- 
2.43.0


From d435f11cd615f542097d76bb261a87f84e0209c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:58 +0000
Subject: [PATCH 13/40] fix: reach the goal of minimum jerk trajectories
 despite rounding

execution_time / dt and the remaining time were compared exactly. With,
e.g., dt=0.1 the last step was missing or the goal was not reached.
---
 movement_primitives/data/_minimum_jerk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/data/_minimum_jerk.py b/movement_primitives/data/_minimum_jerk.py
index 6c4dbed..5a2ad97 100644
--- a/movement_primitives/data/_minimum_jerk.py
+++ b/movement_primitives/data/_minimum_jerk.py
@@ -56,7 +56,8 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
                          % (x0.shape, g.shape))
 
     n_dims = x0.shape[0]
-    n_steps = 1 + int(execution_time / dt)
+    # tolerance for rounding errors, e.g., 0.3 / 0.1 < 3
+    n_steps = 1 + int(execution_time / dt + 1e-8)
 
     X = np.zeros((n_steps, n_dims))
     Xd = np.zeros((n_steps, n_dims))
@@ -70,7 +71,7 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
     for t in range(1, n_steps):
         tau = execution_time - t * dt
 
-        if tau >= dt:
+        if tau >= dt * (1.0 - 1e-8):
             dist = g - x
 
             a1 = 0
-- 
2.43.0


From 062feb21339bd997a56cec992c9ceb71203ad9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:58 +0000
Subject: [PATCH 14/40] fix: read the time step of LASA recordings with recent
 NumPy

Converting a two-dimensional array with float() raises an error since
NumPy 2.5.
---
 movement_primitives/data/_lasa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_lasa.py b/movement_primitives/data/_lasa.py
index 32ed9ae..29316b2 100644
--- a/movement_primitives/data/_lasa.py
+++ b/movement_primitives/data/_lasa.py
@@ -131,7 +131,7 @@ def _convert_demonstrations(demos):
     Xd = np.transpose([V for _, V, _ in tmp], [0, 2, 1])
     Xdd = np.transpose([A for _, _, A in tmp], [0, 2, 1])
 
-    dt = float(demos[0][0, 0][4])
+    dt = demos[0][0, 0][4].item()
 
     return X, Xd, Xdd, dt
 
-- 
2.43.0


From 97865e19aeb8854a50b7839790ecd494e6466ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:09 +0000
Subject: [PATCH 15/40] fix: store NumPy scalars as plain numbers

YAML files with NumPy scalars, e.g., of a learned ProMP or of a DMP with
execution_time=T[-1], could not be read anymore. Other scalar types could
not be written to JSON. Tuples of nested objects were not converted.
---
 movement_primitives/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index b66f1d9..1155b64 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -121,12 +121,14 @@ def _recursive_to_dict(obj, convert_tuple=False):
     for k, v in obj.__dict__.items():
         if convert_tuple and isinstance(v, tuple):
             result[k] = list(v)
+        elif isinstance(v, np.generic):
+            result[k] = v.item()
         elif isinstance(v, basic_types_and_sequences):
             result[k] = v
         elif isinstance(v, np.ndarray):
             result[k] = v.tolist()
         else:
-            result[k] = _recursive_to_dict(v)
+            result[k] = _recursive_to_dict(v, convert_tuple)
     return result
 
 
-- 
2.43.0


From 889d0e53066e7ec12f6bc6b4ecf9ad99da13b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:25 +0000
Subject: [PATCH 16/40] fix: avoid NaN in obstacle avoidance when heading to
 the obstacle

With large distances and velocities (e.g., in millimeters) the argument of
arccos exceeded 1 because of rounding errors.
---
 movement_primitives/dmp/_coupling_terms.py | 7 ++++---
 movement_primitives/dmp_fast.pyx           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index cdf5085..39fb9da 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -55,7 +55,7 @@ def obstacle_avoidance_acceleration_2d(
         theta_nom = theta_nom.reshape(*shape)
     theta_denom = (np.linalg.norm(obstacle_diff, axis=-1)
                    * np.linalg.norm(yd, axis=-1) + EPSILON)
-    theta = np.arccos(theta_nom / theta_denom)
+    theta = np.arccos(np.clip(theta_nom / theta_denom, -1.0, 1.0))
     rotated_velocity = np.einsum(
         "nij,nj->ni", R.reshape(-1, 2, 2), yd.reshape(-1, 2))
     if shape:
@@ -224,9 +224,10 @@ def obstacle_avoidance_acceleration_3d(
     obstacle_diff = obstacle_position - y
     r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
     R = pr.matrix_from_compact_axis_angle(r)
-    theta = np.arccos(
+    theta = np.arccos(np.clip(
         np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON))
+        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        -1.0, 1.0))
     cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
     return cdd
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index e122b45..45267ed 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -874,7 +874,7 @@ cpdef obstacle_avoidance_acceleration_2d(
     cdef double obstacle_diff_norm = sqrt(obstacle_diff[0] * obstacle_diff[0] + obstacle_diff[1] * obstacle_diff[1])
     cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1])
     cdef double theta_denom = obstacle_diff_norm * yd_norm + EPSILON
-    cdef double theta = acos(theta_nom / theta_denom)
+    cdef double theta = acos(max(-1.0, min(1.0, theta_nom / theta_denom)))
     cdef np.ndarray[double, ndim=1] rotated_velocity = np.dot(R, yd)
     cdef np.ndarray[double, ndim=1] cdd = gamma * rotated_velocity * (theta * exp(-beta * theta))
     return cdd
-- 
2.43.0


From 4f2eca15e3b4894bfc95d14c03f0e98465c81864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:43 +0000
Subject: [PATCH 17/40] fix: compute pose errors of half turns

The argument of acos could be below -1 because of rounding errors, which
raised a math domain error in inverse kinematics.
---
 movement_primitives/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a96015d..4f44bdd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -496,7 +496,7 @@ def pose_dist(
     ee_actual2ee_desired = np.linalg.inv(ee2base_actual).dot(ee2base_desired)
     trace = (ee_actual2ee_desired[0, 0] + ee_actual2ee_desired[1, 1]
              + ee_actual2ee_desired[2, 2])
-    angle = math.acos(min((trace - 1.0) / 2.0, 1.0))
+    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))
     orientation_error = min(angle, 2.0 * math.pi - angle)
     position_error = math.sqrt(
         ee_actual2ee_desired[0, 3] ** 2 + ee_actual2ee_desired[1, 3] ** 2
-- 
2.43.0


From b7152e245397fdc60ade321e02f9b09080ca347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:43 +0000
Subject: [PATCH 18/40] fix: use the selected solver for trajectories with
 random restarts

---
 movement_primitives/kinematics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 4f44bdd..5731ffd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -462,7 +462,7 @@ class Chain:
 
         if initial_joint_angles is None:
             Q[0] = self.inverse_with_random_restarts(
-                H[0], random_state=random_state,
+                H[0], random_state=random_state, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
         else:
@@ -477,7 +477,7 @@ class Chain:
             if random_restarts:
                 Q[t] = self.local_inverse_with_random_restarts(
                     H[t], Q[t - 1], interval, random_state=random_state,
-                    orientation_weight=orientation_weight,
+                    solver=solver, orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
                 bounds = np.empty((self.n_joints, 2), dtype=float)
-- 
2.43.0


From 727f329678148f8d7b81a4e51b2d976abcab6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:15 +0000
Subject: [PATCH 19/40] fix: search inverse kinematics solutions in the given
 interval

The local search ignored the requested interval around the given joint
angles. Without random restarts it could also leave the joint limits.
---
 movement_primitives/kinematics.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 5731ffd..78b776d 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -377,14 +377,12 @@ class Chain:
         assert n_restarts >= 1
         Q = []
         errors = []
-        bounds = np.empty((self.n_joints, 2))
-        bounds[:, 0] = joint_angles - interval
-        bounds[:, 1] = joint_angles + interval
+        bounds = self._local_bounds(joint_angles, interval)
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
-                desired_pose, q, return_error=True, solver=solver,
-                orientation_weight=orientation_weight,
+                desired_pose, q, return_error=True, bounds=bounds,
+                solver=solver, orientation_weight=orientation_weight,
                 position_weight=position_weight)
             Q.append(q)
             errors.append(error)
@@ -393,6 +391,13 @@ class Chain:
             q = self._sample_joints_uniform(random_state, bounds=bounds)
         return Q[np.argmin(errors)]
 
+    def _local_bounds(self, joint_angles, interval):
+        bounds = np.empty((self.n_joints, 2))
+        bounds[:, 0] = joint_angles - interval
+        bounds[:, 1] = joint_angles + interval
+        return np.clip(
+            bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])
+
     def _sample_joints_uniform(self, random_state, bounds=None):
         if bounds is None:
             bounds = self.joint_limits
@@ -480,9 +485,7 @@ class Chain:
                     solver=solver, orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
-                bounds = np.empty((self.n_joints, 2), dtype=float)
-                bounds[:, 0] = Q[t - 1] - interval
-                bounds[:, 1] = Q[t - 1] + interval
+                bounds = self._local_bounds(Q[t - 1], interval)
                 Q[t] = self.inverse(
                     H[t], Q[t - 1], False, bounds, solver=solver,
                     orientation_weight=orientation_weight,
-- 
2.43.0


From 290c1aab47191b6a2ab8870dad57d7193a7f3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 20/40] fix: apply velocity coupling alike in both Euler
 integrators

The Python version added the coupling velocity after the position had been
updated and ignored precomputed coupling velocities, so that its results
differed from those of the compiled version.
---
 movement_primitives/dmp/_dmp.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 52d300f..f3bb1fc 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -308,22 +308,18 @@ def dmp_step_euler(
                 cd += coupling_term_precomputed[0]
                 cdd += coupling_term_precomputed[1]
         else:
-            cd, cdd = None, None
+            cd, cdd = coupling_term.coupling(current_y, current_yd)
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
         tdd = p_gain * tracking_error / dt
 
         ydd = _dmp_acc(
             current_y, current_yd, cdd, alpha_y, beta_y, goal_y, goal_yd,
-            goal_ydd, start_y, z, execution_time, f, coupling_term, tdd,
+            goal_ydd, start_y, z, execution_time, f, None, tdd,
             smooth_scaling)
-        current_yd += dt * ydd
+        current_yd += dt * ydd + cd / execution_time
         current_y += dt * current_yd
 
-        if coupling_term is not None:
-            cd, _ = coupling_term.coupling(current_y, current_yd)
-            current_yd += cd / execution_time
-
 
 DMP_STEP_FUNCTIONS = {
     "rk4": dmp_step_rk4,
-- 
2.43.0


From 40e0c4bba25f28816ac9aae622cfc4a47454a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 21/40] fix: keep the final velocity until the execution time
 is over

Because of rounding errors of the accumulated time the last integration
step could already be treated as if it were after the end of the movement,
so that the final velocity was not reached.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index adff77c..c4d6b0f 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -239,7 +239,7 @@ def solve_constraints(t0, t1, y0, y0d, y0dd, y1, y1d, y1dd):
 
 
 def apply_constraints(t, goal_y, goal_t, coefficients):
-    if t > goal_t + np.finfo(float).eps:
+    if t > goal_t + 1e-9:  # tolerance for accumulated rounding errors
         # For t > goal_t the polynomial should always 'pull' to the goal
         # position, but velocity and acceleration should be zero.
         # This is done to avoid diverging from the goal if the DMP is executed
-- 
2.43.0


From 5e9d46aed645aedac1bbcf8ba374667d26e613bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 22/40] fix: imitate with final velocity if the demonstration
 starts late

The constraints were solved with powers of absolute times, which is
numerically ill-conditioned unless times are close to 0.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index c4d6b0f..50b629a 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -315,6 +315,7 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     assert allow_final_velocity
 
     n_dims = Y.shape[1]
+    T = T - T[0]  # powers of large times make constraints ill-conditioned
     DT = np.diff(T)
 
     Yd = np.empty(Y.shape)
-- 
2.43.0


From 7b7d0ee1ce49952da919997440436cd0dd49b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 23/40] fix: make open loop execution of dual Cartesian DMPs
 repeatable

The state of the last execution was used to compute the first tracking
error, so that a second call gave another result with p_gain > 0. Open loop
execution also reset a step-wise execution that was under way.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 88b4bda..df1fe2a 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -356,16 +356,22 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
 
         if run_t is None:
             run_t = self.execution_time_
+        state = (self.t, self.last_t, self.initialized,
+                 self.current_y, self.current_yd)
         self.t = 0.0
+        self.initialized = False
         T = [self.t]
         Y = [np.copy(self.start_y)]
         y = np.copy(self.start_y)
         yd = np.copy(self.start_yd)
-        while self.t < run_t:
-            y, yd = self.step(y, yd, coupling_term, step_function)
-            T.append(self.t)
-            Y.append(np.copy(self.current_y))
-        self.t = 0.0
+        try:
+            while self.t < run_t:
+                y, yd = self.step(y, yd, coupling_term, step_function)
+                T.append(self.t)
+                Y.append(np.copy(self.current_y))
+        finally:
+            (self.t, self.last_t, self.initialized,
+             self.current_y, self.current_yd) = state
         return np.array(T), np.vstack(Y)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
-- 
2.43.0


From 319f1c555c16199b70df355fe9f0f833e1453d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 24/40] fix: start open loop execution with the configured
 velocity

The configured start velocity was ignored by open_loop of most movement
primitives while step-wise execution used it.
---
 movement_primitives/dmp/_cartesian_dmp.py       | 14 ++++++++++----
 movement_primitives/dmp/_dmp.py                 |  3 ++-
 movement_primitives/dmp/_state_following_dmp.py |  6 +++---
 movement_primitives/spring_damper.py            | 14 ++++++++------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 8787a81..99996db 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -376,7 +376,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function=step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd[:3])
         try:
             quaternion_step_function = CARTESIAN_DMP_STEP_FUNCTIONS[
                 quaternion_step_function]
@@ -392,7 +393,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             quaternion_step_function,
-            self.smooth_scaling)
+            self.smooth_scaling,
+            start_yd=self.start_yd[3:])
         return T, np.hstack((Yp, Yr))
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
@@ -637,7 +639,7 @@ def dmp_open_loop_quaternion(
         coupling_term=None, run_t=None, int_dt=0.001,
         quaternion_step_function=CARTESIAN_DMP_STEP_FUNCTIONS[
             DEFAULT_CARTESIAN_DMP_STEP_FUNCTION],
-        smooth_scaling=False):
+        smooth_scaling=False, start_yd=None):
     """Run Cartesian DMP without external feedback.
 
     Parameters
@@ -684,6 +686,9 @@ def dmp_open_loop_quaternion(
         is changed and the trajectory is scaled by interpolating between
         the old and new scaling of the trajectory.
 
+    start_yd : array, shape (3,), optional (default: 0)
+        Start velocity.
+
     Returns
     -------
     T : array, shape (n_steps,)
@@ -694,7 +699,8 @@ def dmp_open_loop_quaternion(
     """
     goal_yd = np.zeros(3)
     goal_ydd = np.zeros(3)
-    start_yd = np.zeros(3)
+    if start_yd is None:
+        start_yd = np.zeros(3)
     start_ydd = np.zeros(3)
 
     if run_t is None:
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index f3bb1fc..033762a 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -545,7 +545,8 @@ class DMP(WeightParametersMixin, DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 5f1c0b2..9c40a87 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -66,7 +66,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
         return state_following_dmp_open_loop(
             self.execution_time, 0.0, self.dt_, self.start_y, self.goal_y,
             self.alpha_y, self.beta_y, self.forcing_term, coupling_term, run_t,
-            self.int_dt)
+            self.int_dt, start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
@@ -168,10 +168,10 @@ def state_following_dmp_step(
 
 def state_following_dmp_open_loop(
         goal_t, start_t, dt, start_y, goal_y, alpha_y, beta_y, forcing_term,
-        coupling_term=None, run_t=None, int_dt=0.001):
+        coupling_term=None, run_t=None, int_dt=0.001, start_yd=None):
     t = start_t
     y = np.copy(start_y)
-    yd = np.zeros_like(y)
+    yd = np.zeros_like(y) if start_yd is None else np.copy(start_yd)
     T = [start_t]
     Y = [np.copy(y)]
     if run_t is None:
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 66f9869..c138d38 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -110,7 +110,8 @@ class SpringDamper(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 class SpringDamperOrientation(PointToPointMovement):
@@ -212,7 +213,8 @@ class SpringDamperOrientation(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 def spring_damper_step(
@@ -282,9 +284,9 @@ def spring_damper_step_quaternion(
 
 def spring_damper_open_loop(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros_like(start_y)
+    yd = np.zeros_like(start_y) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
@@ -299,9 +301,9 @@ def spring_damper_open_loop(
 
 def spring_damper_open_loop_quaternion(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros(3)
+    yd = np.zeros(3) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
-- 
2.43.0


From db6e29e4527cf2e565d25a5d7c79bee09cbe0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 25/40] fix: show the potential field of DMPs without smooth
 scaling

The smooth scaling term was always included in the field, also for DMPs
that do not use it.
---
 movement_primitives/dmp/_dmp.py            | 8 ++++++--
 movement_primitives/dmp_potential_field.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 033762a..4184d4b 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -595,13 +595,17 @@ class DMP(WeightParametersMixin, DMPBase):
 
 def dmp_transformation_system(
         Y, V, alpha_y, beta_y, goal_y, goal_yd, goal_ydd, start_y, z,
-        execution_time):
+        execution_time, smooth_scaling=True):
     """Compute acceleration generated by transformation system of DMP."""
+    if smooth_scaling:
+        smoothing = beta_y * (goal_y - start_y) * z
+    else:
+        smoothing = 0.0
     return (
         alpha_y * (
             beta_y * (goal_y - Y)
             + execution_time * (goal_yd - V)
-            - beta_y * (goal_y - start_y) * z
+            - smoothing
         )
     ) / execution_time ** 2 + goal_ydd
 
diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 68171b7..a803e0a 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -57,7 +57,7 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     z = dmp.forcing_term.phase(dmp.t)
     ts = dmp_transformation_system(
         Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
-        dmp.start_y, z, dmp.execution_time_)
+        dmp.start_y, z, dmp.execution_time_, dmp.smooth_scaling)
     ft = np.empty_like(ts)
     ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()
 
-- 
2.43.0


From ce3c9062cccf01759515577584d96d4a880269de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:28 +0000
Subject: [PATCH 26/40] fix: scale obstacle avoidance in the potential field
 like the DMP

A DMP divides the acceleration of the coupling term by the squared
execution time.
---
 movement_primitives/dmp_potential_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index a803e0a..9daa969 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -64,7 +64,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     if obstacle is None:
         ct = np.zeros_like(ts)
     else:
-        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+        ct = obstacle_avoidance_acceleration_2d(
+            Y, Yd, obstacle) / dmp.execution_time_ ** 2
 
     acc = ft + ts + ct
     return xx, yy, ft, ts, ct, acc
-- 
2.43.0


From 3f75d79ad8765f408909734f620333e761e40a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:54 +0000
Subject: [PATCH 27/40] fix: do not accumulate the tracking error over
 integration steps

The Python step function of the dual Cartesian DMP added the correction of
the tracking error again in each integration step. The compiled version
applies it once per integration step.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index df1fe2a..27de0f9 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -106,6 +106,9 @@ def dmp_step_dual_cartesian_python(
 
         if coupling_term is not None:
             cd[:], cdd[:] = coupling_term.coupling(current_y, current_yd)
+        else:
+            cd[:] = 0.0
+            cdd[:] = 0.0
 
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
-- 
2.43.0


From cab74469a36034541f0607d1c715da34b22a99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:23 +0000
Subject: [PATCH 28/40] fix: interpolate demonstrated relative orientations
 without sign jumps

---
 movement_primitives/dmp/_coupling_terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 39fb9da..032ce92 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -579,6 +579,8 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
         distance = np.empty((len(Y), 7))
         for t in range(len(Y)):
             distance[t] = self._right2left_pq(Y[t])
+            if t > 0 and np.dot(distance[t, 3:], distance[t - 1, 3:]) < 0.0:
+                distance[t, 3:] *= -1.0  # same rotation, can be interpolated
         self.desired_distance_per_dimension = [
             interp1d(T, distance[:, d], bounds_error=False,
                      fill_value="extrapolate")
-- 
2.43.0


From 31cfc088dd1ac51eeda437fa9493b17913d1caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:38 +0000
Subject: [PATCH 29/40] fix: copy weight distributions passed to a ProMP

The caller's arrays were stored. Later changes of them changed the ProMP.
---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index d54d653..36200cc 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -297,8 +297,8 @@ class ProMP:
         self : ProMP
             This object
         """
-        self.weight_mean = mean
-        self.weight_cov = cov
+        self.weight_mean = np.copy(mean)
+        self.weight_cov = np.copy(cov)
         return self
 
     def imitate(self, Ts, Ys, n_iter=1000, min_delta=1e-5, verbose=0):
-- 
2.43.0


From 8b2ad563144416d60fa85d457b363c3a6acd0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:46 +0000
Subject: [PATCH 30/40] fix: do not normalize quaternions of the demonstration
 in place

Imitation with Cartesian DMPs changed the array of the caller.
---
 movement_primitives/dmp/_cartesian_dmp.py      | 1 +
 movement_primitives/dmp/_dual_cartesian_dmp.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 99996db..1b01af4 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -419,6 +419,7 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term_pos.weights_[:, :] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 27de0f9..e71df88 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -399,6 +399,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term.weights_[:3, :] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
-- 
2.43.0


From 7d901c47c379a2e02ef9c0872004dd2f54e289d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:12 +0000
Subject: [PATCH 31/40] fix: reject states of wrong size before a step with
 final velocity

The error was raised after the time had been advanced.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 50b629a..c9bea77 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -115,6 +115,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_dims
         self.last_t = self.t
         self.t += self.dt_
 
-- 
2.43.0


From 74b79a3d701f85592310df7c7099d96b9aae2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:12 +0000
Subject: [PATCH 32/40] fix: keep the weights if a Cartesian demonstration is
 rejected

Position weights were already replaced when an error was raised.
---
 movement_primitives/dmp/_cartesian_dmp.py      |  6 ++++--
 movement_primitives/dmp/_dual_cartesian_dmp.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 1b01af4..0aa74f6 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -420,7 +420,7 @@ class CartesianDMP(DMPBase):
             Allow a final velocity.
         """
         Y = np.copy(Y)  # quaternions will be normalized in place
-        self.forcing_term_pos.weights_[:, :] = dmp_imitate(
+        weights_pos = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -429,7 +429,7 @@ class CartesianDMP(DMPBase):
             alpha_z=self.forcing_term_pos.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term_rot.weights_[:, :] = dmp_quaternion_imitation(
+        weights_rot = dmp_quaternion_imitation(
             T, Y[:, 3:],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -440,6 +440,8 @@ class CartesianDMP(DMPBase):
             smooth_scaling=self.smooth_scaling)[0]
 
         self.configure(start_y=Y[0], goal_y=Y[-1])
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
     def get_weights(self):
         """Get weight vector of DMP.
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index e71df88..7843819 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -400,7 +400,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             Allow a final velocity.
         """
         Y = np.copy(Y)  # quaternions will be normalized in place
-        self.forcing_term.weights_[:3, :] = dmp_imitate(
+        weights = np.empty_like(self.forcing_term.weights_)
+        weights[:3, :] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -409,7 +410,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[3:6, :] = dmp_quaternion_imitation(
+        weights[3:6, :] = dmp_quaternion_imitation(
             T, Y[:, 3:7],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -418,7 +419,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[6:9, :] = dmp_imitate(
+        weights[6:9, :] = dmp_imitate(
             T, Y[:, 7:10],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -427,7 +428,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[9:12, :] = dmp_quaternion_imitation(
+        weights[9:12, :] = dmp_quaternion_imitation(
             T, Y[:, 10:14],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -438,3 +439,4 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             smooth_scaling=self.smooth_scaling)[0]
 
         self.configure(start_y=Y[0], goal_y=Y[-1])
+        self.forcing_term.weights_[:, :] = weights
-- 
2.43.0


From 979d3149da15e4fc1519f67c608558334e3840de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:43 +0000
Subject: [PATCH 33/40] fix: reject vectors of wrong size in compiled 2D
 obstacle avoidance

The compiled function read the second entry of position and velocity without
checking that it exists. A one-dimensional DMP with this coupling term read
memory behind its arrays.
---
 movement_primitives/dmp_fast.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 45267ed..83e69c6 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -864,6 +864,9 @@ cpdef obstacle_avoidance_acceleration_2d(
     cdd : array, shape (2,)
         Acceleration.
     """
+    if len(y) != 2 or len(yd) != 2 or len(obstacle_position) != 2:
+        raise ValueError(
+            "Position, velocity, and obstacle position must be 2D vectors.")
     cdef np.ndarray[double, ndim=1] obstacle_diff = obstacle_position - y
     cdef double r = obstacle_diff[0] * yd[1] - obstacle_diff[1] * yd[0]
     if r != 0.0:
-- 
2.43.0


From 59c0d7dc9feca712462ac52e6c84cc4b4733a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:12:04 +0000
Subject: [PATCH 34/40] fix: leave goal velocities out of the potential field

Regular DMPs ignore the velocity and acceleration of the goal. The potential
field added them and showed accelerations that do not act.
---
 movement_primitives/dmp_potential_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 9daa969..69a3ec2 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -55,9 +55,10 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     Yd[:, :] = dmp.current_yd
 
     z = dmp.forcing_term.phase(dmp.t)
+    # regular DMPs ignore goal velocity and acceleration
     ts = dmp_transformation_system(
-        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
-        dmp.start_y, z, dmp.execution_time_, dmp.smooth_scaling)
+        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, 0.0, 0.0, dmp.start_y,
+        z, dmp.execution_time_, dmp.smooth_scaling)
     ft = np.empty_like(ts)
     ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()
 
-- 
2.43.0


From 1a80092652252df28a3fc335d70a03cf0f619971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:28 +0000
Subject: [PATCH 35/40] fix: draw lines at multiples of the standard deviation
 in any color

Without a color, or with a color that is not a string, plotting the
distribution without filled areas failed or drew the color as data.
---
 movement_primitives/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/plot.py b/movement_primitives/plot.py
index 465e50e..cbca172 100644
--- a/movement_primitives/plot.py
+++ b/movement_primitives/plot.py
@@ -158,9 +158,9 @@ def plot_distribution_in_rows(
                     mean[:, i] + f * std_dev[:, i], color=color, alpha=alpha,
                     label=label if f_idx == 0 else None)
             else:
-                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color, ls="--",
+                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color=color, ls="--",
                              label=label if f_idx == 0 else None)
-                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color, ls="--")
+                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color=color, ls="--")
 
     if newaxes:
         layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]),
-- 
2.43.0


From a35d590b99d1c6dcbd2762bfd2a7c4d89a531433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:32 +0000
Subject: [PATCH 36/40] fix: keep many basis functions finite after the end

Activations of all basis functions underflow to zero far away from the
centers. This happens with about 300 weights per dimension or 90 via
points. Normalizing them divided zero by zero. Shift the exponents before
they are normalized so that the closest basis function never vanishes.
---
 movement_primitives/dmp/_forcing_term.py        | 4 +++-
 movement_primitives/dmp/_state_following_dmp.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index d6e983b..37a4959 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -74,7 +74,9 @@ class ForcingTerm:
     def _activations(self, z):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        # avoid that all activations vanish far away from the centers
+        activations = np.exp(exponents - exponents.max(axis=0))
         activations /= activations.sum(axis=0)  # normalize
         return activations
 
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 9c40a87..ee575be 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -114,7 +114,11 @@ class StateFollowingForcingTerm:
     def _activations(self, z, normalized):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        if normalized:
+            # avoid that all activations vanish far away from the centers
+            exponents -= exponents.max(axis=0)
+        activations = np.exp(exponents)
         if normalized:
             activations /= activations.sum(axis=0)
         return activations
-- 
2.43.0


From e9c875fd76bad1d23c091b7e8126e98a2feb459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:48 +0000
Subject: [PATCH 37/40] fix: keep the shape of batches with a single state

The planar obstacle avoidance dropped dimensions of length one, although it
documents that the result has the shape of the given states.
---
 movement_primitives/dmp/_coupling_terms.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 032ce92..5ec2de3 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -50,19 +50,16 @@ def obstacle_avoidance_acceleration_2d(
     R = pbr.matrices_from_compact_axis_angles(r)[..., :2, :2]
     theta_nom = np.einsum(
         "ni,ni->n", obstacle_diff.reshape(-1, 2), yd.reshape(-1, 2))
-    shape = y.shape[:-1]
-    if shape:
-        theta_nom = theta_nom.reshape(*shape)
+    theta_nom = theta_nom.reshape(y.shape[:-1])
     theta_denom = (np.linalg.norm(obstacle_diff, axis=-1)
                    * np.linalg.norm(yd, axis=-1) + EPSILON)
     theta = np.arccos(np.clip(theta_nom / theta_denom, -1.0, 1.0))
     rotated_velocity = np.einsum(
         "nij,nj->ni", R.reshape(-1, 2, 2), yd.reshape(-1, 2))
-    if shape:
-        rotated_velocity = rotated_velocity.reshape(*(shape + (2,)))
+    rotated_velocity = rotated_velocity.reshape(y.shape)
     cdd = (gamma * rotated_velocity
            * (theta * np.exp(-beta * theta))[..., np.newaxis])
-    return np.squeeze(cdd)
+    return cdd
 
 
 class CouplingTermObstacleAvoidance2D:
-- 
2.43.0


From bf9ac318c0743cc4bb9699771320df38d54aa3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:48 +0000
Subject: [PATCH 38/40] fix: accept batches of states in spatial obstacle
 avoidance

The function documents arrays of positions and velocities but failed for
everything except a single state.
---
 movement_primitives/dmp/_coupling_terms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 5ec2de3..6cadbe2 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -219,13 +219,15 @@ def obstacle_avoidance_acceleration_3d(
         Accelerations.
     """
     obstacle_diff = obstacle_position - y
-    r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
-    R = pr.matrix_from_compact_axis_angle(r)
+    r = 0.5 * np.pi * pbr.norm_vectors(np.cross(obstacle_diff, yd))
+    R = pbr.matrices_from_compact_axis_angles(r)
     theta = np.arccos(np.clip(
-        np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        np.sum(obstacle_diff * yd, axis=-1)
+        / (np.linalg.norm(obstacle_diff, axis=-1)
+           * np.linalg.norm(yd, axis=-1) + EPSILON),
         -1.0, 1.0))
-    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
+    cdd = (gamma * np.einsum("...ij,...j->...i", R, yd)
+           * (theta * np.exp(-beta * theta))[..., np.newaxis])
     return cdd
 
 
-- 
2.43.0


From 11359779ab4e3c37b908f64f640ffb7be98c1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:11:03 +0000
Subject: [PATCH 39/40] fix: load spatial coupling terms from JSON and YAML
 files

The desired distance is a list in these files. A coupling term that was read
back failed when it was used.
---
 movement_primitives/dmp/_coupling_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 6cadbe2..0387ffd 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -328,7 +328,7 @@ class CouplingTermPos3DToPos3D:
        https://h2t.anthropomatik.kit.edu/pdf/Gams2013.pdf
     """
     def __init__(self, desired_distance, lf, k=1.0, c1=1.0, c2=30.0):
-        self.desired_distance = desired_distance
+        self.desired_distance = np.asarray(desired_distance)
         self.lf = lf
         self.k = k
         self.c1 = c1
-- 
2.43.0


From 23e8c3c96a18073839e562695b95f9931a1f3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:43:58 +0000
Subject: [PATCH 40/40] fix: Learn ProMPs from their demonstrations alone

ProMP.imitate started from the weights of an earlier call. With few
demonstrations it then stopped far away from the new demonstrations.
The weights are now reset like the variance.
---
 movement_primitives/promp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 36200cc..7308d40 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -394,6 +394,9 @@ class ProMP:
 
         n_samples = sum([Y.shape[0] for Y in Ys])
 
+        self.weight_mean = np.zeros(self.n_weights)
+        self.weight_cov = np.eye(self.n_weights)
+
         for it in range(n_iter):
             weight_mean_old = self.weight_mean
 
-- 
2.43.0

