From b590712ff12d6dd187fa97784d4dff8c694a4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 01/13] fix: scale each conditional moment by its own order in
 the 1-D Normal-approximated scaled moments

---
 mfs/one_dim/moments.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..ca1d041 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,9 +202,8 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
-                          for p in range(num_moments)])[n] / s
+                          for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
@@ -240,8 +239,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
-        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
+        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
-- 
2.43.0


From 404531460fe9c1fc9f267abf48a49aa30e4b8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 02/13] fix: gain and log-likelihood of the Gaussian update for
 multi-dimensional measurements

---
 mfs/classical_filters_smoothers/gfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..6f181cc 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.lax.linalg.triangular_solve(chol, x - mu, left_side=True, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From 6029a74cac6b07647dc1008025e55f7960ef1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 03/13] fix: the zeroth central moment of a Normal is one

---
 mfs/one_dim/moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index ca1d041..dc60070 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -31,7 +31,9 @@ from typing import Callable, Tuple
 def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """p-th central moment of Normal.
     """
-    if p % 2 == 0:
+    if p == 0:
+        return 1.
+    elif p % 2 == 0:
         scale = jnp.sqrt(variance)
         return scale ** p * scipy.special.factorial2(p - 1, exact=True)
     else:
-- 
2.43.0


From 23f45bb8c7e395c11738342fc073ee83eaf3b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:55 +0000
Subject: [PATCH 04/13] fix: predictive scale of the scaled moment filters is
 the standard deviation of the prediction

It was the square root of the averaged conditional variance only, which is zero (and the filter returns NaN) for a
state component that is not driven by noise, or when the expansion of the conditional variance is negative.
---
 mfs/multi_dims/filtering.py | 3 +--
 mfs/one_dim/filtering.py    | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mfs/multi_dims/filtering.py b/mfs/multi_dims/filtering.py
index e776f8b..86ee7f7 100644
--- a/mfs/multi_dims/filtering.py
+++ b/mfs/multi_dims/filtering.py
@@ -183,10 +183,9 @@ def moment_filter_nd_scms(state_cond_scms: Tuple[Callable[[JArray, JArray, JArra
 
         # Prediction step
         weights, nodes = moment_quadrature_nd(scms, inds, mean, scale, ldl=stable)
-        # TODO: cond_scale or cond_cov?
         cond_means, cond_vars = state_cond_mean_vars(nodes)
         mean = jnp.einsum('ij,i->j', cond_means, weights)
-        scale = jnp.sqrt(jnp.einsum('ij,i->j', cond_vars, weights))
+        scale = jnp.sqrt(jnp.einsum('ij,i->j', cond_vars + (cond_means - mean) ** 2, weights))
         scms = jnp.einsum('ij,i->j', state_cond_scms_fn(nodes, state_moments_indices, mean, scale), weights)
 
         # Update step
diff --git a/mfs/one_dim/filtering.py b/mfs/one_dim/filtering.py
index 3aac2c5..4a61b63 100644
--- a/mfs/one_dim/filtering.py
+++ b/mfs/one_dim/filtering.py
@@ -221,7 +221,8 @@ def moment_filter_scms(
         # Prediction step
         weights, nodes = moment_quadrature(scms, mean, scale, sort_nodes=False, ldl=stable)
         cond_means, cond_vars = state_cond_mean_var(nodes)
-        mean, scale = jnp.dot(cond_means, weights), jnp.sqrt(jnp.dot(cond_vars, weights))
+        mean = jnp.dot(cond_means, weights)
+        scale = jnp.sqrt(jnp.dot(cond_vars + (cond_means - mean) ** 2, weights))
         scms = jnp.einsum('ij,i->j', state_cond_scaled_central_moments(nodes, orders, mean, scale), weights)
 
         # Update step
-- 
2.43.0


From 37eac225f8121f0f3b6027b08497bf23f9baf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:18 +0000
Subject: [PATCH 05/13] fix: resampling never selects a particle of zero weight

A uniform draw of exactly zero selected particle 0 (or made the multinomial scheme return NaN-driven indices), and a
cumulative sum that rounds below one selected the last particle, whatever their weights.
---
 mfs/classical_filters_smoothers/resampling.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index f2e4394..90fa115 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -36,19 +36,24 @@ from mfs.typings import JArray
 def _sorted_uniforms(n, key: JArray) -> JArray:
     # Credit goes to Nicolas Chopin
     us = jax.random.uniform(key, (n + 1,))
-    z = jnp.cumsum(-jnp.log(us))
+    z = jnp.cumsum(-jnp.log1p(-us))
     return z[:-1] / z[-1]
 
 
+def _inverse_cdf(weights: JArray, us: JArray) -> JArray:
+    # Never select a zero weight: not when u is 0, and not because of rounding errors in the cumulative sum.
+    cs = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
+    idx = jnp.searchsorted(cs, us * cs[-1], side='right')
+    return jnp.minimum(idx, jnp.searchsorted(cs, cs[-1]))
+
+
 def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
         u = jax.random.uniform(key, ())
     else:
         u = jax.random.uniform(key, (n,))
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
-    return jnp.clip(idx, 0, n - 1)
+    return _inverse_cdf(weights, (jnp.arange(n, dtype=weights.dtype) + u) / n)
 
 
 def systematic(weights: JArray, key: JArray) -> JArray:
@@ -61,9 +66,7 @@ def stratified(weights: JArray, key: JArray) -> JArray:
 
 def multinomial(weights: JArray, key: JArray) -> JArray:
     n = weights.shape[0]
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
-    return jnp.clip(idx, 0, n - 1)
+    return _inverse_cdf(weights, _sorted_uniforms(n, key))
 
 
 def _avg_n_nplusone(x):
-- 
2.43.0


From 9fdcba8b6b8c1c3fe7776b3c339e9415f8aea3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 06/13] fix: particle filters draw initialisation, proposal and
 resampling from separate random keys

The key given to init_sampler was also the parent of the per-step keys (and
equal to one of the derived keys when the sampler splits), and the transition
sampler received the key that the resampling key was split from.
---
 mfs/classical_filters_smoothers/smc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mfs/classical_filters_smoothers/smc.py b/mfs/classical_filters_smoothers/smc.py
index a5ae85a..ad1d688 100644
--- a/mfs/classical_filters_smoothers/smc.py
+++ b/mfs/classical_filters_smoothers/smc.py
@@ -63,21 +63,22 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray], JArray],
         samples, nell = carry
         y, _key = elem
 
-        samples = transition_sampler(samples, _key)
+        key_x, key_r = jax.random.split(_key)
+        samples = transition_sampler(samples, key_x)
 
         weights = measurement_cond_pdf(y, samples)
         nell -= jnp.log(jnp.mean(weights))
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
         if conti_resampling:
-            samples = continuous_resampling(samples, weights, nsamples, _key)
+            samples = continuous_resampling(samples, weights, nsamples, key_r)
         else:
-            samples = samples[resampling(weights, _key), ...]
+            samples = samples[resampling(weights, key_r), ...]
 
         return (samples, nell), samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
 
     (*_, nell_ys), solution_samples = jax.lax.scan(scan_body, (init_samples, 0.), (ys, keys))
@@ -127,15 +128,16 @@ def particle_filter(proposal_sampler: Callable[[JArray, JArray, JArray], JArray]
         ancestors = carry
         y, _key = elem
 
-        samples = proposal_sampler(ancestors, y, _key)
+        key_x, key_r = jax.random.split(_key)
+        samples = proposal_sampler(ancestors, y, key_x)
         weights = measurement_cond_pdf(y, samples) * transition_density(samples, ancestors) \
                   / proposal_density(samples, ancestors, y)
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
-        samples = samples[resampling(weights, _key), ...]
+        samples = samples[resampling(weights, key_r), ...]
         return samples, samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
     return jax.lax.scan(scan_body, init_samples, (ys, keys))[1]
-- 
2.43.0


From f1ce9c04783b047ef4e1fdc4b479afc1888c2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:50 +0000
Subject: [PATCH 07/13] fix: prey_predator's simulate accepts its
 integration_steps argument

---
 mfs/multi_dims/ss_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/multi_dims/ss_models.py b/mfs/multi_dims/ss_models.py
index ad58958..d1c21bb 100644
--- a/mfs/multi_dims/ss_models.py
+++ b/mfs/multi_dims/ss_models.py
@@ -20,6 +20,7 @@ import math
 import jax
 import jax.numpy as jnp
 import numpy as np
+from functools import partial
 from mfs.utils import GaussianSumND
 from mfs.typings import FloatScalar, JArray, JFloat
 from typing import Callable, Union, Tuple, NamedTuple
@@ -66,7 +67,7 @@ def prey_predator(multi_indices):
     def measurement_cond_pmf(y, x):
         return jax.scipy.stats.bernoulli.pmf(y, emission(x[0]))
 
-    @jax.jit
+    @partial(jax.jit, static_argnames='integration_steps')
     def simulate(key, integration_steps: int = 100):
         key_x0, key_ws, key_ys = jax.random.split(key, 3)
 
-- 
2.43.0


From a12cb583275609594a63ff2233917a116784044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 08/13] fix: convergence_mf calls the library's moment filters
 instead of its own jitted wrappers

---
 dardel/convergence/convergence_mf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dardel/convergence/convergence_mf.py b/dardel/convergence/convergence_mf.py
index f62ecc1..c9b57d9 100644
--- a/dardel/convergence/convergence_mf.py
+++ b/dardel/convergence/convergence_mf.py
@@ -114,7 +114,7 @@ cms0 = jnp.array([central_moment_of_normal(var0, p) for p in range(num_moments)]
 
 # JIT filter routines
 @jax.jit
-def moment_filter_rms(_ys):
+def run_moment_filter_rms(_ys):
     rmss, _ = moment_filter_rms(state_cond_raw_moments,
                                 measurement_cond_pdf,
                                 rms0,
@@ -123,7 +123,7 @@ def moment_filter_rms(_ys):
 
 
 @jax.jit
-def moment_filter_cms(_ys):
+def run_moment_filter_cms(_ys):
     cmss, means, _ = moment_filter_cms(state_cond_central_moments,
                                        state_cond_mean,
                                        measurement_cond_pdf,
@@ -152,9 +152,9 @@ for k in range(num_mc):
 
     # Results from moment filter
     if mode == 'raw':
-        mfs, vfs = moment_filter_rms(ys)
+        mfs, vfs = run_moment_filter_rms(ys)
     elif mode == 'central':
-        mfs, vfs = moment_filter_cms(ys)
+        mfs, vfs = run_moment_filter_cms(ys)
     else:
         raise NotImplementedError(f'Mode {mode} not implemented.')
 
-- 
2.43.0


From 8c77f04b0f4502749b2cf6117ecaf5fefc116ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 09/13] fix: Gauss--Hermite parameter estimation optimises the
 Gauss--Hermite likelihood

---
 dardel/parameter_estimation/ghf_ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dardel/parameter_estimation/ghf_ekf.py b/dardel/parameter_estimation/ghf_ekf.py
index 9d2244c..be2407e 100644
--- a/dardel/parameter_estimation/ghf_ekf.py
+++ b/dardel/parameter_estimation/ghf_ekf.py
@@ -89,7 +89,7 @@ ys = jax.random.poisson(key_ys, emission(xs, true_p2), (T,))
 
 # Run optimisation of GHF
 init_params = jnp.log(jnp.exp(jnp.array([args.p1_init, args.p2_init])) - 1.)
-opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ekf)
+opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ghf)
 opt_params, opt_state = opt_solver.run(init_params,  ys)
 opt_params = jnp.log(jnp.exp(opt_params) + 1.)
 
-- 
2.43.0


From a0d2343966152e0c34574ef579a9e1837c68f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 10/13] fix: plot_convergence reads the packed particle filter
 results under the name they are stored

---
 reproduce_paper_plots/plot_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reproduce_paper_plots/plot_convergence.py b/reproduce_paper_plots/plot_convergence.py
index cc582b1..f0e6350 100644
--- a/reproduce_paper_plots/plot_convergence.py
+++ b/reproduce_paper_plots/plot_convergence.py
@@ -62,7 +62,7 @@ for i, N in enumerate([3, 7, 11, 15]):
     axes[1, i].set_xlabel('$t$')
 
 # Plot PF for comparison
-results = np.load(path + 'pf.npz')
+results = np.load(path + 'pf_100000.npz')
 errs_means_pf = results['errs_means']
 errs_variances_pf = results['errs_variances']
 errs_kls = results['errs_kls']
-- 
2.43.0


From ab1c713496321e43c8584c253edbe5b04737f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 11/13] fix: time profiles are measured with a monotonic clock

---
 dardel/time_profile/ghf.py | 4 ++--
 dardel/time_profile/mf.py  | 4 ++--
 dardel/time_profile/pf.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dardel/time_profile/ghf.py b/dardel/time_profile/ghf.py
index 12817ae..4f46452 100644
--- a/dardel/time_profile/ghf.py
+++ b/dardel/time_profile/ghf.py
@@ -68,10 +68,10 @@ for k in range(-1, maxmc):
         print('Compile...')
         mfs, vfs, _ = ghf(ys)
     else:
-        tic = time.time()
+        tic = time.perf_counter()
         mfs, vfs, _ = ghf(ys)
         mfs.block_until_ready()
-        elapse = time.time() - tic
+        elapse = time.perf_counter() - tic
         elapsed_times[k] = elapse
 
 np.savez_compressed(filename, elapsed_times=elapsed_times)
diff --git a/dardel/time_profile/mf.py b/dardel/time_profile/mf.py
index e41de3a..360a5e2 100644
--- a/dardel/time_profile/mf.py
+++ b/dardel/time_profile/mf.py
@@ -92,10 +92,10 @@ for k in range(-1, maxmc):
         result = moment_filter(ys)
     else:
         while True:
-            tic = time.time()
+            tic = time.perf_counter()
             result = moment_filter(ys)
             result.block_until_ready()
-            elapse = time.time() - tic
+            elapse = time.perf_counter() - tic
 
             if ~np.any(np.isnan(result)):
                 break
diff --git a/dardel/time_profile/pf.py b/dardel/time_profile/pf.py
index 4049245..cac8a55 100644
--- a/dardel/time_profile/pf.py
+++ b/dardel/time_profile/pf.py
@@ -64,10 +64,10 @@ for k in range(-1, maxmc):
         print('Compile...')
         samples = bf(ys, key_pf)
     else:
-        tic = time.time()
+        tic = time.perf_counter()
         samples = bf(ys, key_pf)
         samples.block_until_ready()
-        elapse = time.time() - tic
+        elapse = time.perf_counter() - tic
         elapsed_times[k] = elapse
 
 np.savez_compressed(filename, elapsed_times=elapsed_times)
-- 
2.43.0


From 396e217b54b4e9bee3ecd1ad87cd0452d53d9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 12/13] fix: job drivers keep the raw results unless all of
 them have been packed

---
 dardel/run_benes_bernoulli_brute_force.sh | 12 ++++++++++--
 dardel/run_benes_bernoulli_ghf_pf.sh      |  4 ++--
 dardel/run_convergence_pf.sh              |  4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/dardel/run_benes_bernoulli_brute_force.sh b/dardel/run_benes_bernoulli_brute_force.sh
index 91b32a1..afea099 100644
--- a/dardel/run_benes_bernoulli_brute_force.sh
+++ b/dardel/run_benes_bernoulli_brute_force.sh
@@ -38,7 +38,15 @@ done
 
 # Post-processing
 python ./benes_bernoulli/post_processing_brute_force.py --b=2 --m=2000 --maxmc=$MAXMC &
+PID_B2=$!
 python ./benes_bernoulli/post_processing_brute_force.py --b=5 --m=2000 --maxmc=$MAXMC &
-wait
+PID_B5=$!
 
-rm ./results/benes_bernoulli_brute_force/mc_*
+# Remove the raw results only if all of them have been packed
+PACKED=true
+wait $PID_B2 || PACKED=false
+wait $PID_B5 || PACKED=false
+if $PACKED
+then
+    rm ./results/benes_bernoulli_brute_force/mc_*
+fi
diff --git a/dardel/run_benes_bernoulli_ghf_pf.sh b/dardel/run_benes_bernoulli_ghf_pf.sh
index 58a932d..0e5fb66 100644
--- a/dardel/run_benes_bernoulli_ghf_pf.sh
+++ b/dardel/run_benes_bernoulli_ghf_pf.sh
@@ -46,7 +46,7 @@ do
   wait
 done
 
-python ./benes_bernoulli/post_processing_pf.py --b=2 --m=2000
+python ./benes_bernoulli/post_processing_pf.py --b=2 --m=2000 --maxmc=$MAXMC &&
 rm ./results/benes_bernoulli_pf/b_2_m_2000_mc_*
 
 # PF with evaluating the characteristic function on [-5, 5]
@@ -60,5 +60,5 @@ do
   wait
 done
 
-python ./benes_bernoulli/post_processing_pf.py --b=5 --m=2000
+python ./benes_bernoulli/post_processing_pf.py --b=5 --m=2000 --maxmc=$MAXMC &&
 rm ./results/benes_bernoulli_pf/b_5_m_2000_mc_*
diff --git a/dardel/run_convergence_pf.sh b/dardel/run_convergence_pf.sh
index 4fe7d07..1272a42 100644
--- a/dardel/run_convergence_pf.sh
+++ b/dardel/run_convergence_pf.sh
@@ -37,7 +37,7 @@ do
   wait
 done
 
-python ./convergence/convergence_pf_post_processing.py --nparticles=10000 --T=100 --maxmc=$MAXMC
+python ./convergence/convergence_pf_post_processing.py --nparticles=10000 --T=100 --maxmc=$MAXMC &&
 rm ./results/convergence/pf_10000_mc_*
 
 # With 100000 particles
@@ -51,5 +51,5 @@ do
   wait
 done
 
-python ./convergence/convergence_pf_post_processing.py --nparticles=100000 --T=100 --maxmc=$MAXMC
+python ./convergence/convergence_pf_post_processing.py --nparticles=100000 --T=100 --maxmc=$MAXMC &&
 rm ./results/convergence/pf_100000_mc_*
-- 
2.43.0


From 59e0059019cc3f5c8a3e72bbf752a20254788e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 13/13] fix: resampling takes the weights of one-dimensional
 particles as a column too

---
 mfs/classical_filters_smoothers/resampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index 90fa115..878cd4c 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -42,6 +42,7 @@ def _sorted_uniforms(n, key: JArray) -> JArray:
 
 def _inverse_cdf(weights: JArray, us: JArray) -> JArray:
     # Never select a zero weight: not when u is 0, and not because of rounding errors in the cumulative sum.
+    weights = jnp.ravel(weights)
     cs = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
     idx = jnp.searchsorted(cs, us * cs[-1], side='right')
     return jnp.minimum(idx, jnp.searchsorted(cs, cs[-1]))
-- 
2.43.0

