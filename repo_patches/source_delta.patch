From a93891339800ca7ee2585e75cbcfffb1aefb603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 01/43] fix: particle filter continues from the resampled
 particles and keeps previous weights

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 3 ++-
 src/probnum/filtsmooth/particle/_particle_filter.py          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..3272e6d 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,8 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        # The importance distribution is the dynamics, so their densities cancel out.
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From 14548934b64c6fa441119a52e532725890ed8200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 02/43] fix: forward sampling must not reuse the noise of the
 initial state

---
 src/probnum/randprocs/markov/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/_transition.py b/src/probnum/randprocs/markov/_transition.py
index 25c94f0..b11edab 100644
--- a/src/probnum/randprocs/markov/_transition.py
+++ b/src/probnum/randprocs/markov/_transition.py
@@ -471,7 +471,7 @@ class Transition(abc.ABC):
             curr_sample = (
                 curr_rv.mean
                 + curr_rv.cov_cholesky
-                @ base_measure_realizations[idx - 1].reshape((-1,))
+                @ base_measure_realizations[idx].reshape((-1,))
             )
             out_samples.append(curr_sample)
         return out_samples
-- 
2.43.0


From c25875aaea17d96c4f047fff192a9acfc2790e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 03/43] fix: store perturbation scales of accepted steps only

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..0f28947 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._proposed_scale = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -117,8 +118,8 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         """
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
-        scale = noisy_step / dt
-        self.scales.append(scale)
+        # Only stored permanently (in method_callback()) if the step is accepted.
+        self._proposed_scale = noisy_step / dt
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -131,7 +132,8 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         return state
 
     def method_callback(self, state):
-        """Call dense output after each step and store the interpolants."""
+        """Store the scale and the interpolant of each accepted step."""
+        self.scales.append(self._proposed_scale)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From 2c7090c6041124495552e9609946ddb043e1eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 04/43] fix: constant diffusion is the mean of all local
 estimates

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..ee677e7 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From 2c356d167d1508c6226ea4ab91741d47f5e6e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 05/43] fix: ODE solver lands on tmax and stop_at without
 overshooting or roundoff-sized steps

---
 src/probnum/diffeq/_odesolver.py | 46 +++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..0008806 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -77,11 +77,20 @@ class ODESolver(ABC):
 
         # Use state.ivp in case a callback modifies the IVP
         while state.t < state.ivp.tmax:
+            dt = _land_on(state.ivp.tmax, t=state.t, dt=dt)
             if stopper_state is not None:
                 dt, stopper_state = _adjust_time_step(stopper_state, t=state.t, dt=dt)
 
+            t_old = state.t
             state, dt = self.perform_full_step(state, dt)
 
+            # Remove the rounding error of (t + dt), if this step was supposed to end at
+            # a specific location. Otherwise, the next step would be a spurious,
+            # roundoff-sized step.
+            state = _snap_to(state.ivp.tmax, state=state, t_old=t_old)
+            if stopper_state is not None:
+                state = _snap_to(stopper_state.next_location, state=state, t_old=t_old)
+
             if callbacks is not None:
                 for callback in callbacks:
                     state = callback(state)
@@ -94,14 +103,14 @@ class ODESolver(ABC):
         """Process callbacks and time-stamps into a format suitable for solve()."""
 
         def promote_callback_type(cbs):
-            return cbs if isinstance(cbs, abc.Iterable) else [cbs]
+            return list(cbs) if isinstance(cbs, abc.Iterable) else [cbs]
 
         if callbacks is not None:
             callbacks = promote_callback_type(callbacks)
         if stop_at_locations is not None:
             loc_iter = iter(stop_at_locations)
             time_stopper = _TimeStopperState(
-                locations=loc_iter, next_location=next(loc_iter)
+                locations=loc_iter, next_location=next(loc_iter, np.inf)
             )
         else:
             time_stopper = None
@@ -180,16 +189,29 @@ class _TimeStopperState:
 
 
 def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
-
-    if t + dt > next_location:
-        dt = next_location - t
+    next_location = stopper_state.next_location
+    while t >= next_location:
+        next_location = next(stopper_state.locations, np.inf)
+
+    dt = _land_on(next_location, t=t, dt=dt)
     return dt, _TimeStopperState(
         locations=stopper_state.locations, next_location=next_location
     )
+
+
+def _land_on(location, t, dt):
+    """Adjust the step-size such that a step from t does not go past the location.
+
+    If the step would end just before the location, it is extended to the location.
+    """
+    if t + dt * (1.0 + 1e-10) > location:
+        dt = location - t
+    return dt
+
+
+def _snap_to(location, state, t_old):
+    """Replace the current time by the location if they only differ by roundoff."""
+    roundoff = 4 * np.spacing(max(abs(t_old), abs(state.t)))
+    if abs(state.t - location) <= roundoff:
+        state = dataclasses.replace(state, t=location)
+    return state
-- 
2.43.0


From 50c0c5af437d3a2a59afa88fa76f0d6e51f8ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 06/43] fix: ODE filter passes the time to the measurement
 update (non-autonomous ODEs)

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..517932b 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain, t=state.t + dt
         )
 
         t_new = state.t + dt
-- 
2.43.0


From c3a2aff16e94ee50fe2614b75d26e8c9694d5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 07/43] fix: ODE filter smooths the calibrated states

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 517932b..1f8a721 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -388,6 +388,8 @@ class ODEFilter(_odesolver.ODESolver):
 
         if self.with_smoothing is True:
 
+            # Smooth the calibrated states
+            rv_list = kalman_posterior.states
             squared_diffusion_list = self.diffusion_model(locations[1:])
             rv_list = self.prior_process.transition.smooth_list(
                 rv_list, locations, _diffusion_list=squared_diffusion_list
-- 
2.43.0


From cf42845ee182bfd18d8e82925a7632720510b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 08/43] fix: align piecewise constant diffusions with the ODE
 solver steps

---
 src/probnum/diffeq/odefilter/_odefilter.py          | 5 +++--
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 1f8a721..25eeaea 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
@@ -390,7 +390,8 @@ class ODEFilter(_odesolver.ODESolver):
 
             # Smooth the calibrated states
             rv_list = kalman_posterior.states
-            squared_diffusion_list = self.diffusion_model(locations[1:])
+            # The k-th diffusion belongs to the k-th step.
+            squared_diffusion_list = self.diffusion_model[np.arange(len(locations) - 1)]
             rv_list = self.prior_process.transition.smooth_list(
                 rv_list, locations, _diffusion_list=squared_diffusion_list
             )
diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..03ec95b 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,10 +196,9 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
+        # The k-th diffusion belongs to the interval between the k-th and the k+1-th
+        # location, so the previous index is the index of the diffusion.
+        diffusion_index = previous_index if previous_index is not None else next_index
         if diffusion_index >= len(self.locations) - 1:
             diffusion_index = -1
         if self.diffusion_model_has_been_provided:
@@ -299,7 +298,7 @@ class SmoothingPosterior(KalmanPosterior):
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
         # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[1:])
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
-- 
2.43.0


From af19948ad4b9aa45dd4a1578d9835d42f38d7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 09/43] fix: smoothing posterior interpolates from the
 filtering state

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 03ec95b..75c2f60 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -243,8 +243,10 @@ class SmoothingPosterior(KalmanPosterior):
         dt_right = next_location - t
         assert dt_left > 0.0
         assert dt_right > 0.0
+        # The filtering state (not the smoothing state!) is the one to be extrapolated,
+        # because the data on the right of `t` enters through the smoothing update.
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From c96685b1759263ebee89172b2d75fbd12006d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 10/43] fix: adaptive steps shrink (and eventually raise) on
 NaN error estimates instead of looping forever

---
 src/probnum/diffeq/stepsize/_steprule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..86a0151 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -129,7 +129,8 @@ class AdaptiveSteps(StepRule):
         change = self.safetyscale * ratio ** (1.0 / localconvrate)
 
         # The below code should be doable in a single line?
-        if change < small:
+        # NaN's (due to, e.g., overflow in a step that was too large) decrease the step.
+        if change < small or np.isnan(change):
             step = small * laststep
         elif large < change:
             step = large * laststep
-- 
2.43.0


From 6faa12420c1704e76f724829e8247c3907a13a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 11/43] fix: relative tolerance refers to the magnitude of the
 reference state

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 86a0151..dc3b876 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -147,7 +147,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From ffefe3cdce5a9ff3d1c2481b3ed2e5faac8467d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:07 +0000
Subject: [PATCH 12/43] fix: Runge-Kutta step recomputes the derivative if the
 state was modified or the previous step perturbed

---
 .../scipy_wrapper/_wrapped_scipy_solver.py          | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 6f2dd88..e2d6907 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -23,6 +23,7 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
         # Filled in later
         self.solver = None
         self.ivp = None
+        self._is_new_step = False
 
         # Dopri853 as implemented in SciPy computes the dense output differently.
         if issubclass(solver_type, rk.DOP853):
@@ -50,6 +51,7 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
         self.ivp = ivp
 
         self.interpolants = []
+        self._is_new_step = False
         self.solver.y_old = None
         self.solver.t = self.ivp.t0
         self.solver.y = self.ivp.y0
@@ -82,6 +84,16 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
+        # The derivative at the end of the previous step can only be reused if this step
+        # starts there. This is not the case if a callback has modified the state, or if
+        # the previous step was perturbed.
+        if self._is_new_step:
+            if state.t != self.solver.t or not np.array_equal(
+                state.rv.mean, self.solver.y
+            ):
+                self.solver.f = self.solver.fun(state.t, state.rv.mean)
+            self._is_new_step = False
+
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
@@ -130,6 +142,7 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
         """Call dense output after each step and store the interpolants."""
         dense = self.dense_output()
         self.interpolants.append(dense)
+        self._is_new_step = True
 
     def dense_output(self):
         """Compute the interpolant after each step.
-- 
2.43.0


From 5afafe25cb204a185acea2067d443617ef8790f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 13/43] fix: the step size stays positive if a callback extends
 the horizon in the last step

---
 src/probnum/diffeq/_odesolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 0008806..9de71ee 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -139,8 +139,9 @@ class ODESolver(ABC):
             )
 
             # Get a new step-size for the next step
+            # (which must remain positive, because a callback may extend the horizon).
             if step_is_sufficiently_small:
-                dt = min(suggested_dt, state.ivp.tmax - proposed_state.t)
+                dt = suggested_dt
             else:
                 dt = min(suggested_dt, state.ivp.tmax - state.t)
 
-- 
2.43.0


From 02251f7f43e2690814880d44e29edeecc091f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:06 +0000
Subject: [PATCH 14/43] fix: square-root moment equations must not flip the
 sign of the derivative

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..97b7785 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,9 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            # This is a derivative, so its diagonal may be negative.
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From 3e6a1bb6d0f8cb5e20fa0f8a1b363558400f7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:06 +0000
Subject: [PATCH 15/43] fix: Kalman filter predicts from the previous time
 point and passes the time to the update

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From 7d93cba303759dcb7617ad70bd6f29f20b173acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 16/43] fix: samples of a Markov process start at its initial
 argument

---
 src/probnum/randprocs/markov/_markov.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 7939edd..784588f 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -62,12 +62,14 @@ class _MarkovBase(_random_process.RandomProcess):
             size=(size + args.shape + self.initrv.shape), random_state=rng
         )
 
+        initrv = self._initrv_at(args[0])
+
         if size == ():
             return np.array(
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_measure_realizations,
                     t=args,
-                    initrv=self.initrv,
+                    initrv=initrv,
                     _diffusion_list=np.ones_like(args[:-1]),
                 )
             )
@@ -77,13 +79,17 @@ class _MarkovBase(_random_process.RandomProcess):
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_real,
                     t=args,
-                    initrv=self.initrv,
+                    initrv=initrv,
                     _diffusion_list=np.ones_like(args[:-1]),
                 )
                 for base_real in base_measure_realizations
             ]
         )
 
+    def _initrv_at(self, arg: InputType) -> randvars.RandomVariable:
+        """Random variable describing the state at the first location of a sample."""
+        return self.initrv
+
     class Kernel(kernels.Kernel):
         def __init__(
             self, markov_proc_call, input_shape: ShapeLike, output_shape: ShapeLike
@@ -145,6 +151,15 @@ class MarkovProcess(_MarkovBase):
         )
         self.initarg = initarg
 
+    def _initrv_at(self, arg: InputType) -> randvars.RandomVariable:
+        # The initial random variable describes the state at `initarg`.
+        if not arg > self.initarg:
+            return self.initrv
+        rv, _ = self.transition.forward_rv(
+            self.initrv, t=self.initarg, dt=arg - self.initarg
+        )
+        return rv
+
 
 class MarkovSequence(_MarkovBase):
     """Discrete-time Markov processes."""
-- 
2.43.0


From d9425c9a09eb30d6d9f56059398adef64f09c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:25 +0000
Subject: [PATCH 17/43] fix: discretised LTI SDE applies the force vector in
 the right order

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..5d951fe 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,7 +158,9 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_rev = np.eye(
+                self.state_dimension, 2 * self.state_dimension, k=self.state_dimension
+            )
             ah = proj @ ah_stack @ proj.T
             sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
-- 
2.43.0


From 3732b5f9e3bdcbc967279f73008511e7a80fa137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 18/43] fix: cholesky_update of a tall and a square matrix
 square-root

---
 src/probnum/utils/linalg/_cholesky_updates.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..5b9e6a7 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -67,13 +67,12 @@ def cholesky_update(
     else:
         stacked_up = np.vstack(S1.T)
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
-    if S1.ndim == 1:
-        lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
+    if S1.ndim == 1 or upper_sqrtm.shape[0] == upper_sqrtm.shape[1]:
         lower_sqrtm = upper_sqrtm.T
     else:
+        # Fewer rows than columns were stacked up, so the factor is padded with zeros.
         lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+        lower_sqrtm[:, : upper_sqrtm.shape[0]] = upper_sqrtm.T
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From 003e98266e399057126c7694922c8c201533b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 19/43] fix: integrators transform a given gain into the
 preconditioned coordinates

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 2 +-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 2 +-
 src/probnum/randprocs/markov/integrator/_matern.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..bfaef59 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..2e2cc51 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..215d09a 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
-- 
2.43.0


From 88b930d4b9123e5a972fc1042cfebd44a0e9d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 20/43] fix: samples of normal random variables have the
 requested shape

Samples of random variables with a single entry could not be reshaped, and
symmetric-Kronecker normals ignored empty and multi-dimensional sample sizes.
---
 src/probnum/randvars/_normal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..06f4453 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -484,7 +484,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+        # SciPy squeezes dimensions of length 1, which includes the dimension of the
+        # random variable if it only has a single entry.
+        squeezed_size = tuple(n for n in size if n != 1)
+        return np.asarray(sample).reshape(squeezed_size + self.shape)
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
@@ -592,7 +595,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -600,4 +603,4 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        return self.dense_mean + samples_scaled.T.reshape(size + (n, n))
-- 
2.43.0


From 2870a4b597d11b64147af6d7626fbc6059234028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 21/43] fix: samples of Markov processes support
 multi-dimensional sample sizes

---
 src/probnum/randprocs/markov/_markov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 784588f..0fc41e9 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -74,7 +74,7 @@ class _MarkovBase(_random_process.RandomProcess):
                 )
             )
 
-        return np.stack(
+        samples = np.stack(
             [
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_real,
@@ -82,9 +82,12 @@ class _MarkovBase(_random_process.RandomProcess):
                     initrv=initrv,
                     _diffusion_list=np.ones_like(args[:-1]),
                 )
-                for base_real in base_measure_realizations
+                for base_real in base_measure_realizations.reshape(
+                    (-1,) + args.shape + self.initrv.shape
+                )
             ]
         )
+        return samples.reshape(size + samples.shape[1:])
 
     def _initrv_at(self, arg: InputType) -> randvars.RandomVariable:
         """Random variable describing the state at the first location of a sample."""
-- 
2.43.0


From 90d2c21fd30c0da987c7b43e645a9a8a2267a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 22/43] fix: Kalman posterior samples keep the order and
 multiplicity of the locations

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 75c2f60..7c30d60 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -87,7 +87,7 @@ class KalmanPosterior(_timeseriesposterior.TimeSeriesPosterior, abc.ABC):
         # Compute the union (as sets) of t and self.locations
         # This allows that samples "always pass" the grid points.
         all_locations = np.union1d(t, self.locations)
-        slice_these_out = np.where(np.isin(all_locations, t))[0]
+        slice_these_out = np.searchsorted(all_locations, t)
         base_measure_realizations = stats.norm.rvs(
             size=(size + all_locations.shape + single_rv_shape),
             random_state=rng,
-- 
2.43.0


From 26c5dc703833eba8afc66165665e4e7b076e9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:09 +0000
Subject: [PATCH 23/43] fix: marginals of matrix-variate normals select the
 matching covariance block

---
 src/probnum/randvars/_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 06f4453..da6507d 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -309,11 +309,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean = self.dense_mean[key]
 
         # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        kept = np.ravel(np.arange(self.size).reshape(self.shape)[key])
+        cov = self.dense_cov.reshape(self.size, self.size)[np.ix_(kept, kept)]
 
-        if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+        if mean.ndim == 0:
+            cov = cov.reshape(())
 
         return Normal(
             mean=mean,
-- 
2.43.0


From f78a1be0ede9cff5fa5bc66d1f34f6643c4e6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:09 +0000
Subject: [PATCH 24/43] fix: bayesquad passes acquisition function instances to
 its policies

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..99b9299 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -212,9 +212,9 @@ class BayesianQuadrature:
 
         # Select policy
         acquisition_dict = dict(
-            mi=MutualInformation,
-            ivr=IntegralVarianceReduction,
-            us=WeightedPredictiveVariance,
+            mi=MutualInformation(),
+            ivr=IntegralVarianceReduction(),
+            us=WeightedPredictiveVariance(),
         )
         if policy is None:
             # If policy is None, this implies that the integration problem is defined
-- 
2.43.0


From d829b4869e6fce4652234291fb7ea41eb980f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:39 +0000
Subject: [PATCH 25/43] fix: transposing and indexing random variables acts on
 each sample

---
 src/probnum/randvars/_random_variable.py | 40 +++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..14ba0ea 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -6,7 +6,7 @@ from typing import Any, Callable, Dict, Generic, Optional, Tuple, TypeVar, Union
 
 import numpy as np
 
-from probnum import utils as _utils
+from probnum import linops, utils as _utils
 from probnum.typing import ArrayIndicesLike, DTypeLike, FloatLike, ShapeLike, ShapeType
 
 ValueType = TypeVar("ValueType")
@@ -524,10 +524,13 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        # Positions of the selected entries in the flattened random variable
+        entries = np.arange(self.size).reshape(self.shape)[key]
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape)[key].shape,
+            shape=entries.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
+            sample=lambda rng, size: self._select_from_sample(rng, size, entries),
             mode=lambda: self.mode[key],
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
@@ -569,21 +572,44 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+        # Positions of the transposed entries in the flattened random variable
+        entries = np.arange(self.size).reshape(self.shape).transpose(*axes)
+
+        def cov_transposed():
+            if self.ndim < 2:
+                return self.cov
+
+            cov = self.cov
+            if isinstance(cov, linops.LinearOperator):
+                cov = cov.todense()
+
+            return cov[np.ix_(entries.ravel(), entries.ravel())]
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape).transpose(*axes).shape,
+            shape=entries.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=lambda rng, size: self._select_from_sample(rng, size, entries),
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=cov_transposed,
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
-    T = property(transpose)
+    @property
+    def T(self) -> "RandomVariable":
+        """Transpose of the random variable."""
+        return self.transpose()
+
+    def _select_from_sample(
+        self, rng: np.random.Generator, size: ShapeType, entries: np.ndarray
+    ) -> ValueType:
+        """Draw samples and select entries of each of them."""
+        sample = np.reshape(self.sample(rng, size), size + (self.size,))
+        return sample[..., entries][()]
 
     # Unary arithmetic operations
 
-- 
2.43.0


From 635b1fe2bb13f98949ad9086b62a31969a183f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:41 +0000
Subject: [PATCH 26/43] fix: arithmetic of random variables combines
 corresponding samples

---
 src/probnum/randvars/_arithmetic.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..8cfcfbf 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -125,10 +125,19 @@ def _default_rv_binary_op_factory(op_fn) -> _RandomVariableBinaryOperator:
 
 
 def _make_rv_binary_op_result_shape_dtype_sample_fn(op_fn, rv1, rv2):
-    sample_fn = lambda rng, size: op_fn(
-        rv1.sample(rng, size=size),
-        rv2.sample(rng, size=size),
-    )
+    def sample_fn(rng, size):
+        if size == ():
+            return op_fn(rv1.sample(rng), rv2.sample(rng))
+
+        # The operation combines each draw from `rv1` with the corresponding draw from
+        # `rv2`, i.e. the sample dimensions do not take part in broadcasting.
+        samples1 = np.reshape(rv1.sample(rng, size=size), (-1,) + rv1.shape)
+        samples2 = np.reshape(rv2.sample(rng, size=size), (-1,) + rv2.shape)
+
+        return np.reshape(
+            [op_fn(sample1, sample2) for sample1, sample2 in zip(samples1, samples2)],
+            size + shape,
+        )
 
     # Infer shape and dtype
     infer_sample = sample_fn(np.random.default_rng(1), ())
-- 
2.43.0


From a5de35224bf708ec57db74abc16eedf9a39653a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 27/43] fix: SuiteSparse matrices can be downloaded without a
 content-length header

---
 src/probnum/problems/zoo/linalg/_suitesparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py b/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
index e79fbca..3b674a0 100644
--- a/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
+++ b/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
@@ -218,11 +218,13 @@ class SuiteSparseMatrix(linops.Matrix):
         chunk_iter = response.iter_content(chunk_size=chunk_size)
         buffer = io.BytesIO()
 
+        content_length = response.headers.get("content-length")
+
         try:
             from tqdm.auto import tqdm  # pylint: disable=import-outside-toplevel
 
             with tqdm(
-                total=int(response.headers["content-length"]),
+                total=None if content_length is None else int(content_length),
                 desc=self.name,
                 unit="B",
                 unit_scale=True,
-- 
2.43.0


From 6cf4e2711089e052194247c93d8693b553c48075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 28/43] fix: SuiteSparse archives are verified and the
 requested matrix is extracted

---
 src/probnum/problems/zoo/linalg/_suitesparse_matrix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py b/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
index 3b674a0..c4ccb64 100644
--- a/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
+++ b/src/probnum/problems/zoo/linalg/_suitesparse_matrix.py
@@ -2,6 +2,7 @@
 
 import codecs
 import csv
+import gzip
 import io
 import tarfile
 from typing import Dict, Union
@@ -236,12 +237,15 @@ class SuiteSparseMatrix(linops.Matrix):
             for chunk in chunk_iter:
                 buffer.write(chunk)
 
-        buffer.seek(0)
         if verbose:
             print("Extracting file archive.")
 
-        with tarfile.open(fileobj=buffer, mode="r:gz") as tar:
-            return scipy.io.mmread(tar.extractfile(tar.getmembers()[0]))
+        # Decompress everything, such that the checksum of the archive gets verified
+        buffer = io.BytesIO(gzip.decompress(buffer.getvalue()))
+
+        # The archive may contain further files, e.g. right-hand sides
+        with tarfile.open(fileobj=buffer, mode="r:") as tar:
+            return scipy.io.mmread(tar.extractfile(f"{self.name}/{self.name}.mtx"))
 
     @staticmethod
     def _html_header() -> str:
-- 
2.43.0


From 94958795fd7c49bbc71b364116a83333403e937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 29/43] fix: a configuration context with an unknown option
 changes nothing

---
 src/probnum/_config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..608377d 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -73,12 +73,13 @@ class Configuration:
     @contextlib.contextmanager
     def __call__(self, **kwargs) -> None:
         """Context manager used to set values of registered config options."""
-        old_options = {}
-
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
+        old_options = {}
+
+        for key, value in kwargs.items():
             old_options[key] = self._options_registry[key].value
 
             self._options_registry[key].value = value
-- 
2.43.0


From 4347ac0631556abe47110b91fae9edc3b35442a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:08 +0000
Subject: [PATCH 30/43] fix: particle filters support a single particle

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index 4509de3..c622309 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -172,7 +172,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
         else:
             particles = self.prior_process.initrv.sample(
                 rng=self.rng, size=(self.num_particles,)
-            )
+            ).reshape(particle_set_shape)
 
         for t, data, measmod in regression_problem:
 
-- 
2.43.0


From de5e90f2f74319d0b8f295b3a0580f4a03cd60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:09 +0000
Subject: [PATCH 31/43] fix: particle weights do not underflow and are not
 shifted

---
 .../filtsmooth/particle/_importance_distributions.py     | 9 +++++++--
 src/probnum/filtsmooth/particle/_particle_filter.py      | 9 +++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 3272e6d..c9e9834 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -15,6 +15,11 @@ __all__ = [
 ]
 
 
+def _log_weight(weight) -> float:
+    """Logarithm of a particle weight, which is allowed to vanish."""
+    return np.log(weight) if weight > 0.0 else -np.inf
+
+
 class ImportanceDistribution(abc.ABC):
     """Importance distributions used in particle filtering."""
 
@@ -42,7 +47,7 @@ class ImportanceDistribution(abc.ABC):
         return (
             dynamics_rv.logpdf(proposal_state)
             - importance_rv.logpdf(proposal_state)
-            + np.log(old_weight + 1e-14)
+            + _log_weight(old_weight)
         )
 
 
@@ -66,7 +71,7 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
         # The importance distribution is the dynamics, so their densities cancel out.
-        return np.log(old_weight + 1e-14)
+        return _log_weight(old_weight)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c622309..465ec5f 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -3,6 +3,7 @@
 from typing import Iterable, Union
 
 import numpy as np
+import scipy.special
 
 from probnum import problems, randprocs, randvars
 from probnum.filtsmooth import _bayesfiltsmooth
@@ -178,7 +179,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
 
             dt = t - t_old
             new_particles = particles.copy()
-            new_weights = weights.copy()
+            new_log_weights = np.empty_like(weights)
 
             # Capture the inputs in a variable for more compact code layout
             inputs = measmod, particles, weights, data, t_old, dt, t
@@ -203,12 +204,12 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                         old_weight=w,
                     )
                 )
-                new_weight = np.exp(loglikelihood + log_correction_factor)
 
                 new_particles[idx] = new_particle
-                new_weights[idx] = new_weight
+                new_log_weights[idx] = loglikelihood + log_correction_factor
 
-            weights = new_weights / np.sum(new_weights)
+            # Normalize in log-space: the unnormalized weights may all underflow.
+            weights = scipy.special.softmax(new_log_weights)
             particles = new_particles
             new_rv = randvars.Categorical(support=particles, probabilities=weights)
 
-- 
2.43.0


From 7ca06c7ff1a6cc64fa8fb14a793acdfe2bfba2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:09 +0000
Subject: [PATCH 32/43] fix: probability mass function of categorical random
 variables

---
 src/probnum/randvars/_categorical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..8ade158 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,8 +67,12 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            # All entries have to coincide, and an event can appear more than once in
+            # the support (e.g. after resampling).
+            mask = np.all(
+                np.reshape(x == self.support, (len(self.support), -1)), axis=1
+            )
+            return np.sum(self.probabilities[mask])
 
         def _mode_categorical():
             mask = np.argmax(self.probabilities)
-- 
2.43.0


From 41090fc0d094010b3747de66d230350bb39f9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:55 +0000
Subject: [PATCH 33/43] fix: problinsolve reports the posterior covariance
 after the first iteration

---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d51d3bc 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From 6d26c48b0ba7a2a951a1ca089d7f6c7ea3c27026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:08 +0000
Subject: [PATCH 34/43] fix: relative tolerance of iterated filters refers to
 the magnitude of the reference

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..def0167 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -33,6 +33,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From fc939e30ec275b727a15b118ac326306482a28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:08 +0000
Subject: [PATCH 35/43] fix: iterated filters do not report convergence of NaN
 iterates

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index def0167..ffb047e 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -25,7 +25,7 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
             errormsg = f"Maximum number of iterations (N={self.maxit}) reached."
             raise RuntimeError(errormsg)
         magnitude = self.evaluate_error(error=error, reference=reference)
-        if magnitude > 1:
+        if not magnitude <= 1:  # also holds if the magnitude is NaN
             self.iterations += 1
             return False
         self.iterations = 0
-- 
2.43.0


From 298e9765d0fd176370fd45845f8fe2469ad104a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:28 +0000
Subject: [PATCH 36/43] fix: iteration counts of iterated filters do not leak
 into other runs

---
 src/probnum/filtsmooth/gaussian/_kalman.py          | 3 +++
 src/probnum/filtsmooth/optim/_gauss_newton.py       | 6 +++++-
 src/probnum/filtsmooth/optim/_iterated_component.py | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index c0fdeed..8225b5d 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -1,6 +1,7 @@
 """Gaussian filtering and smoothing."""
 
 
+import copy
 from typing import Iterable, Optional, Union
 
 import numpy as np
@@ -113,6 +114,8 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
         """
         if stopcrit is None:
             stopcrit = optim.FiltSmoothStoppingCriterion()
+        # The criterion counts iterations, hence every run needs its own copy.
+        stopcrit = copy.copy(stopcrit)
 
         if init_posterior is None:
             # Initialise iterated smoother
diff --git a/src/probnum/filtsmooth/optim/_gauss_newton.py b/src/probnum/filtsmooth/optim/_gauss_newton.py
index 6083dce..8cc8445 100644
--- a/src/probnum/filtsmooth/optim/_gauss_newton.py
+++ b/src/probnum/filtsmooth/optim/_gauss_newton.py
@@ -1,5 +1,7 @@
 """Gauss-Newton methods in state-space models."""
 
+import copy
+
 import numpy as np
 
 from probnum.filtsmooth.optim import _state_space_optimizer
@@ -27,7 +29,9 @@ class GaussNewton(_state_space_optimizer.StateSpaceOptimizer):
         old_mean = np.inf * np.ones(new_mean.shape)
         mean_difference = new_mean - old_mean
 
-        while not self.stopping_criterion(error=mean_difference, reference=new_mean):
+        # The criterion counts iterations, hence every run needs its own copy.
+        stopping_criterion = copy.copy(self.stopping_criterion)
+        while not stopping_criterion(error=mean_difference, reference=new_mean):
 
             old_posterior = new_posterior
             new_posterior, info_dicts = self.kalman.filtsmooth(
diff --git a/src/probnum/filtsmooth/optim/_iterated_component.py b/src/probnum/filtsmooth/optim/_iterated_component.py
index 795d7d5..af96095 100644
--- a/src/probnum/filtsmooth/optim/_iterated_component.py
+++ b/src/probnum/filtsmooth/optim/_iterated_component.py
@@ -1,5 +1,7 @@
 """Iterated components for iterated filtering and smoothing."""
 
+import copy
+
 import numpy as np
 
 from probnum import randprocs
@@ -94,7 +96,9 @@ class IteratedDiscreteComponent(randprocs.markov.Transition):
 
         new_mean = current_rv.mean.copy()
         old_mean = np.inf * np.ones(current_rv.mean.shape)
-        while not self.stopcrit(error=new_mean - old_mean, reference=new_mean):
+        # The criterion counts iterations, hence every run needs its own copy.
+        stopcrit = copy.copy(self.stopcrit)
+        while not stopcrit(error=new_mean - old_mean, reference=new_mean):
             old_mean = new_mean.copy()
             current_rv, info = self._component.backward_rv(
                 rv_obtained=rv_obtained,
-- 
2.43.0


From 50a0fb5449d0d26f15a747344c0a349923cfd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:28 +0000
Subject: [PATCH 37/43] fix: relative change of a vanishing integral mean is
 zero

---
 .../quad/solvers/stopping_criteria/_rel_mean_change.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
index 6e91448..4b33be0 100644
--- a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
+++ b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
@@ -36,10 +36,6 @@ class RelativeMeanChange(BQStoppingCriterion):
         if not bq_state.previous_integral_beliefs:
             # On the first iteration there is no previous integral value to use
             return False
-        return (
-            np.abs(
-                (integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean)
-                / integral_belief.mean
-            )
-            <= self.rel_tol
-        )
+        return np.abs(
+            integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean
+        ) <= self.rel_tol * np.abs(integral_belief.mean)
-- 
2.43.0


From cfabd250c8c36487a5d75c287d5e5fff007ed43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:07 +0000
Subject: [PATCH 38/43] fix: an ODE filter can be used for more than one run

---
 src/probnum/diffeq/odefilter/_odefilter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 25eeaea..11070dd 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -1,5 +1,6 @@
 """Gaussian IVP filtering and smoothing."""
 
+import copy
 from typing import Optional
 
 import numpy as np
@@ -114,6 +115,10 @@ class ODEFilter(_odesolver.ODESolver):
             else diffusion_model
         )
 
+        # Every call to initialize() starts with copies of these.
+        self._initial_information_operator = self.information_operator
+        self._initial_diffusion_model = self.diffusion_model
+
         # Once the diffusion has been calibrated, the covariance can either
         # be calibrated after each step, or all states can be calibrated
         # with a global diffusion estimate. The choices here depend on the
@@ -129,6 +134,11 @@ class ODEFilter(_odesolver.ODESolver):
         self._reference_coordinates = _reference_coordinates
 
     def initialize(self, ivp):
+        # Reset the solver: each run calibrates its own diffusion and incorporates its
+        # own ODE. The originals remain as they were passed by the user.
+        self.information_operator = copy.copy(self._initial_information_operator)
+        self.diffusion_model = copy.deepcopy(self._initial_diffusion_model)
+
         self.information_operator.incorporate_ode(ode=ivp)
         self.measurement_model = self.approx_strategy(
             self.information_operator
-- 
2.43.0


From f6991fb5ecdfce57f05992da8d24aaee4b4f30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:22 +0000
Subject: [PATCH 39/43] fix: publish cached operator decompositions only once
 they are complete

---
 src/probnum/linops/_linear_operator.py | 36 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..b40577b 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -557,9 +557,10 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
                     "Eigenvalues are only defined for square operators"
                 )
 
-            self._eigvals_cache = self._eigvals()
+            eigvals = self._eigvals()
+            eigvals.setflags(write=False)
 
-            self._eigvals_cache.setflags(write=False)
+            self._eigvals_cache = eigvals
 
         return self._eigvals_cache
 
@@ -785,9 +786,10 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
     def diagonal(self) -> np.ndarray:
         """Diagonal of the linear operator."""
         if self._diagonal_cache is None:
-            self._diagonal_cache = self._diagonal()
+            diagonal = self._diagonal()
+            diagonal.setflags(write=False)
 
-            self._diagonal_cache.setflags(write=False)
+            self._diagonal_cache = diagonal
 
         return self._diagonal_cache
 
@@ -844,32 +846,36 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
         if self._cholesky_cache is None:
             try:
-                self._cholesky_cache = self._cholesky(lower)
-
-                self.is_positive_definite = True
+                cholesky_factor = self._cholesky(lower)
             except np.linalg.LinAlgError as err:
                 self.is_positive_definite = False
 
                 raise err
 
+            self.is_positive_definite = True
+
             if lower:
-                self._cholesky_cache.is_lower_triangular = True
+                cholesky_factor.is_lower_triangular = True
             else:
-                self._cholesky_cache.is_upper_triangular = True
+                cholesky_factor.is_upper_triangular = True
+
+            # Only publish the factor once it is complete.
+            self._cholesky_cache = cholesky_factor
+
+        cholesky_factor = self._cholesky_cache
 
         upper = not lower
 
-        if (lower and self._cholesky_cache.is_lower_triangular) or (
-            upper and self._cholesky_cache.is_upper_triangular
+        if (lower and cholesky_factor.is_lower_triangular) or (
+            upper and cholesky_factor.is_upper_triangular
         ):
-            return self._cholesky_cache
+            return cholesky_factor
 
         assert (
-            self._cholesky_cache.is_lower_triangular
-            or self._cholesky_cache.is_upper_triangular
+            cholesky_factor.is_lower_triangular or cholesky_factor.is_upper_triangular
         )
 
-        return self._cholesky_cache.T
+        return cholesky_factor.T
 
     def _cholesky(self, lower: bool) -> LinearOperator:
         return Matrix(
-- 
2.43.0


From 719c5fd215c25ce737f228da7dfa7a96b7fe77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:57 +0000
Subject: [PATCH 40/43] fix: concurrent first accesses to the covariance
 Cholesky factor of a Normal

---
 src/probnum/randvars/_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index da6507d..595b2c7 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -242,7 +242,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         :math:`\\operatorname{Cov}(X) =LL^\\top`."""
 
         if not self.cov_cholesky_is_precomputed:
-            self.precompute_cov_cholesky()
+            self._cov_cholesky = self._compute_cov_cholesky(
+                damping_factor=config.covariance_inversion_damping
+            )
         return self._cov_cholesky
 
     def precompute_cov_cholesky(
-- 
2.43.0


From 2584f6d54eac9f7a20d5639b49b471ddbdc67910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:57 +0000
Subject: [PATCH 41/43] fix: arithmetic of Normals with operator covariance
 after the Cholesky factor was computed

---
 src/probnum/randvars/_arithmetic.py | 30 +++++++++++++++++------------
 src/probnum/randvars/_normal.py     |  5 ++++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 8cfcfbf..ce19ffc 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -283,6 +283,22 @@ _mul_fns[(_Normal, _Constant)] = _mul_normal_constant
 _mul_fns[(_Constant, _Normal)] = _swap_operands(_mul_normal_constant)
 
 
+def _transformed_cov_cholesky(support, norm_rv: _Normal):
+    """Cholesky factor of the covariance of ``support @ norm_rv``, if readily available.
+
+    Cholesky updates are only implemented for dense square-roots.
+    """
+    if not norm_rv.cov_cholesky_is_precomputed:
+        return None
+
+    cov_sqrt = support @ norm_rv.cov_cholesky
+
+    if isinstance(cov_sqrt, _linear_operators.LinearOperator):
+        return None
+
+    return _utils.linalg.cholesky_update(cov_sqrt)
+
+
 def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     """Normal random variable multiplied with a vector or matrix.
 
@@ -290,12 +306,7 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
     is a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[0] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support.T @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
+        cov_cholesky = _transformed_cov_cholesky(constant_rv.support.T, norm_rv)
 
         mean = norm_rv.mean @ constant_rv.support
         cov = constant_rv.support.T @ (norm_rv.cov @ constant_rv.support)
@@ -335,12 +346,7 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
     a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[1] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
+        cov_cholesky = _transformed_cov_cholesky(constant_rv.support, norm_rv)
         return _Normal(
             mean=constant_rv.support @ norm_rv.mean,
             cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 595b2c7..c15d4ac 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -149,7 +149,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             # shape, dtype.
             if cov_cholesky is not None:
 
-                if not isinstance(cov_cholesky, type(cov)):
+                # The factor of a structured operator need not have the same structure.
+                cov_type = linops.LinearOperator if cov_operator else type(cov)
+
+                if not isinstance(cov_cholesky, cov_type):
                     raise TypeError(
                         f"The covariance matrix is of type `{type(cov)}`, so its "
                         f"Cholesky decomposition must be of the same type, but an "
-- 
2.43.0


From dcede7072afd0362fe3e4461513d053c3b82a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:10 +0000
Subject: [PATCH 42/43] fix: piecewise constant diffusions are continuous from
 the right

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index ee677e7..f890380 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -141,9 +141,10 @@ class PiecewiseConstantDiffusion(Diffusion):
 
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
-        indices = np.searchsorted(self.locations, t) - 1
+        # The piecewise constant function is continuous from the right.
+        indices = np.searchsorted(self.locations, t, side="right") - 1
         indices[t < self.t0] = 0
-        indices[t > self.tmax] = -1
+        indices[t >= self.tmax] = -1
 
         if t_has_been_promoted:
             indices = indices[0]
-- 
2.43.0


From 360d3556c6eab504e2bf3c45eebc9eac32a86de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:22 +0000
Subject: [PATCH 43/43] fix: problinsolve starts from the initial guess its
 prior was built from

A guess in the wrong half space (or orthogonal to b) is replaced when the prior
means are built, and a guess is documented to be ignored if a prior on the matrix
is given, but the iteration started from the original guess all the same, so that
the mean of x was not the mean of Ainv times b.
---
 src/probnum/linalg/solvers/matrixbased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index d51d3bc..566c616 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -255,7 +255,9 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         self.Ainv_covfactor = Ainv_covfactor0
         self.Ainv_covfactor0 = Ainv_covfactor0
         if isinstance(x0, np.ndarray):
-            self.x_mean = x0
+            # Start where the prior does. It ignores `x0` if a prior on A or Ainv was
+            # given and may replace it by a better initialization.
+            self.x_mean = Ainv_mean0 @ self.b if np.any(self.b) else np.zeros_like(x0)
         elif x0 is None:
             self.x_mean = Ainv_mean0 @ self.b
         else:
-- 
2.43.0

