From 37b99bc3a850bb3b6525ceda2980da3d80a1fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 01/25] fix: ema(debias=False) returns the moving average, not
 the raw gradient

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..8ffdd83 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -125,8 +125,8 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
+    updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From 208c952ca2a405c63017f43cf48bfc949c7849c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 02/25] fix: MultiSteps passes params on to the wrapped
 optimiser

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..d71bc32 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 39f165fc9cf706d87c99280cbec66c7ea791f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 03/25] fix: masked does not take the truth value of the params

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d71bc32..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -322,7 +322,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 30552347e01d3438e345905a30916c4522baa4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 04/25] fix: lookahead passes the fast params to the fast
 optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From 46bf9a80c26ec996cc829d1e53a4464584acbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/25] fix: lookahead(reset_state=True) selects the initial
 state instead of blending

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..58ab7ee 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
-- 
2.43.0


From ea8233ad2f35a43ea13377aa0967c255f897d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 06/25] fix: sm3 handles rank-0 parameters

---
 optax/_src/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ffdd83..b09ef86 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,6 +745,8 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
+    if p.ndim == 0:  # A scalar is its own (only) cover.
+      return [jnp.zeros([])]
     return [jnp.zeros([s]) for s in p.shape]
 
   def init_fn(params):
@@ -778,7 +780,8 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)]
+        if g.ndim > 0 else v,
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -786,7 +789,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 1bf9dc0fcc0d5e0ba7569cb27c2f7655cf55058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 07/25] fix: sm3 keeps the dtype of the parameters

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index b09ef86..48d71a5 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -746,8 +746,8 @@ def scale_by_sm3(
 
   def zeros_for_dim(p):
     if p.ndim == 0:  # A scalar is its own (only) cover.
-      return [jnp.zeros([])]
-    return [jnp.zeros([s]) for s in p.shape]
+      return [jnp.zeros([], dtype=p.dtype)]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From 24049dbeb2bb05e3be7c804cf1560e4bb60a87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 08/25] fix: scale_by_stddev does not produce NaNs when the
 variance rounds below zero

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 48d71a5..b220fd6 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -249,8 +249,8 @@ def scale_by_stddev(
     mu = _update_moment(updates, state.mu, decay, 1)
     nu = _update_moment(updates, state.nu, decay, 2)
     updates = jax.tree_multimap(
-        lambda g, m, n: g * jax.lax.rsqrt(n - jnp.square(m) + eps), updates, mu,
-        nu)
+        lambda g, m, n: g * jax.lax.rsqrt(  # pylint:disable=g-long-lambda
+            jnp.maximum(n - jnp.square(m), 0.) + eps), updates, mu, nu)
     return updates, ScaleByRStdDevState(mu=mu, nu=nu)
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 3f9fb029e2d26065bf0b15b587fd7980369ec11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 09/25] fix: piecewise_interpolate_schedule handles zero-width
 intervals

---
 optax/_src/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..5fecb2f 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -279,7 +279,9 @@ def piecewise_interpolate_schedule(
 
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
-  interval_sizes = (bounds[1:] - bounds[:-1])
+  # An empty interval (e.g. a boundary at step 0) never contributes a value, it
+  # must just not introduce NaNs.
+  interval_sizes = jnp.maximum(bounds[1:] - bounds[:-1], 1)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From add1564a457dbe50952059681f9f5f2d89ecef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 10/25] fix: onecycle schedules keep all the scale factors when
 boundaries coincide

---
 optax/_src/schedule.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 5fecb2f..5be09d3 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -292,6 +292,14 @@ def piecewise_interpolate_schedule(
   return schedule
 
 
+def _merge_boundaries(*boundaries_and_scales):
+  """Builds a dict from (boundary, scale) pairs, multiplying repeated ones."""
+  merged = {}
+  for boundary, scale in boundaries_and_scales:
+    merged[boundary] = merged.get(boundary, 1.) * scale
+  return merged
+
+
 def linear_onecycle_schedule(
     transition_steps: int,
     peak_value: float,
@@ -329,9 +337,10 @@ def linear_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'linear',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(pct_final * transition_steps): 1. / div_factor,
-       transition_steps: 1. / final_div_factor})
+      _merge_boundaries(
+          (int(pct_start * transition_steps), div_factor),
+          (int(pct_final * transition_steps), 1. / div_factor),
+          (transition_steps, 1. / final_div_factor)))
 
 
 def cosine_onecycle_schedule(
@@ -368,8 +377,9 @@ def cosine_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'cosine',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(transition_steps): 1. / (div_factor * final_div_factor)})
+      _merge_boundaries(
+          (int(pct_start * transition_steps), div_factor),
+          (int(transition_steps), 1. / (div_factor * final_div_factor))))
 
 
 def join_schedules(schedules: Sequence[base.Schedule],
-- 
2.43.0


From 8f614e3f1e6667f528a3f86a1de894e3ecf79c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 11/25] fix: differentially_private_aggregate rejects a leading
 scalar with its ValueError

---
 optax/_src/privacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..a755ff6 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -59,13 +59,14 @@ def differentially_private_aggregate(
   def update_fn(updates, state, params=None):
     del params
     grads_flat, grads_treedef = jax.tree_flatten(updates)
-    bsize = grads_flat[0].shape[0]
 
-    if any(g.ndim == 0 or bsize != g.shape[0] for g in grads_flat):
+    if any(g.ndim == 0 or grads_flat[0].shape[0] != g.shape[0]
+           for g in grads_flat):
       raise ValueError(
           'Unlike other transforms, `differentially_private_aggregate` expects'
           ' `updates` to have a batch dimension in the 0th axis. That is, this'
           ' function expects per-example gradients as input.')
+    bsize = grads_flat[0].shape[0]
 
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
-- 
2.43.0


From b60020925190469f19ce3293cc7c684e7998699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 12/25] fix: matrix_inverse_pth_root supports every positive
 integer p

---
 optax/_src/linear_algebra.py | 48 ++++++++++++++----------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..0be2fb3 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,28 +122,8 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p by repeated squaring.
 
     Args:
       mat_m: a square matrix
@@ -152,15 +132,23 @@ def matrix_inverse_pth_root(
     Returns:
       mat_m^p
     """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    def _pow_condition(state):
+      exponent, unused_power, unused_square = state
+      return exponent > 0
+
+    def _pow_body(state):
+      exponent, power, square = state
+      power = jnp.where(
+          exponent % 2 == 1,
+          jnp.matmul(power, square, precision=precision), power)
+      return (exponent // 2, power,
+              jnp.matmul(square, square, precision=precision))
+
+    _, result, _ = lax.while_loop(
+        _pow_condition, _pow_body,
+        (jnp.asarray(p, jnp.int32), jnp.eye(matrix_size, dtype=mat_m.dtype),
+         mat_m))
+    return result
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From e03731668381745a7fb45b1ccedebb466f6e5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 13/25] fix: add_noise scales the noise by its standard
 deviation, not its variance

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index b220fd6..3a83952 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -634,12 +634,13 @@ def add_noise(
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
     variance = eta / count_inc**gamma
+    std = jnp.sqrt(variance)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + std.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From 264903293ddc556ff7fbaa13a3bbe814fb17b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 14/25] fix: noisy_sgd adds the noise to the gradients, before
 the learning rate

---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 3465a47a4d1df71c71cf07b18a94e700b66032a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 15/25] fix: moving_avg_baseline debiases the average once, not
 at every update

---
 optax/_src/control_variates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..66f1933 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -192,6 +192,10 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
+    if zero_debias:
+      # The state holds the debiased average: recover the plain one.
+      value *= jnp.ones([]) - jnp.power(iteration_decay, i)
+
     updated_value = iteration_decay * value
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
-- 
2.43.0


From 2d688bab55d83360c492e64cd63bb5ba9f68a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 16/25] fix: clip_by_global_norm keeps the dtype of every leaf

---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..e677717 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(  # pylint:disable=g-long-lambda
+            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 7560d9dab5390a5f1d1277a333051f16225abbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 17/25] fix: flatten keeps the dtype of every leaf

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..702031c 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -63,7 +63,7 @@ def flatten(
     del offsets[-1]
     flat_split = jnp.split(flat, offsets)
     reshaped = [
-        jnp.reshape(flat_update, update.shape)
+        jnp.reshape(flat_update, update.shape).astype(update.dtype)
         for flat_update, update in zip(flat_split, updates_flat)
     ]
     return tree_unflatten(treedef, reshaped)
-- 
2.43.0


From 9703f2dfc717b78ba8eb5e5ad83bcf4f2e2bbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 18/25] fix: differentially_private_aggregate keeps the dtype
 of every leaf

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index a755ff6..434c84c 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -71,7 +71,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From 0d3f580371b463f2c06808dfc3ee6c2a18c90343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 19/25] fix: apply_every drops non-finite values with the
 window they were seen in

---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 3a83952..60bc80c 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -680,9 +680,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g,
+        updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From e53ee6d13d4dfe5f5d622607f2cf837d78cf9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 20/25] fix: scale_by_radam keeps the dtype of the updates
 under jit

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 60bc80c..5db15e8 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -457,7 +457,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: (r*m / (jnp.sqrt(v + eps_root) + eps)).astype(m.dtype),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 29e069ce59ce7fb59768614389f76423150270e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 21/25] fix: polynomial_schedule does not return NaN after the
 transition under jit

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 5be09d3..c189bc5 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,7 +84,8 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    frac = 1 - count / transition_steps
+    # Exactly 0 at the end, also if XLA multiplies by 1 / transition_steps.
+    frac = (transition_steps - count) / transition_steps
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From ad55354bf7860ec7003be9c23eb9a7f9499abf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 22/25] fix: lookahead leaves the slow params alone between
 synchronizations, whatever the fast ones are

---
 optax/_src/lookahead.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 58ab7ee..2a39b0f 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -175,17 +175,18 @@ def _lookahead_update(
   #       slow_step_size) * (fast_params + updates - slow_params)
   #
   # To make the equations jittable, the two types of steps are merged. Defining
-  # last_difference = fast_params + updates - slow_params, this yields the
-  # following equtions which are implemented below:
-  #   slow_updates = slow_step_size * sync_next * last_difference
-  #   fast_updates = updates - (
-  #                  1 - slow_step_size) * sync_next * last_difference
-  last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
-                                      updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
+  # last_difference = fast_params + updates - slow_params at synchronization
+  # steps and 0 at the others (also if the fast parameters are not finite), this
+  # yields the following equtions which are implemented below:
+  #   slow_updates = slow_step_size * last_difference
+  #   fast_updates = updates - (1 - slow_step_size) * last_difference
+  last_difference = jax.tree_multimap(
+      lambda f, u, s: jnp.where(sync_next, f + u - s, jnp.zeros_like(u)),
+      params.fast, updates, params.slow)
+  slow_updates = jax.tree_map(lambda diff: slow_step_size * diff,
                               last_difference)
   fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+      lambda up, diff: up - (1 - slow_step_size) * diff, updates,
       last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
-- 
2.43.0


From 60cbdad42914bb250f7e02e65ac8a2e3ca9e989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 23/25] fix: hessian_diag works for parameters of every float
 type

---
 optax/_src/second_order.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/second_order.py b/optax/_src/second_order.py
index 6793dbc..b14e803 100644
--- a/optax/_src/second_order.py
+++ b/optax/_src/second_order.py
@@ -84,7 +84,9 @@ def hessian_diag(
     A DeviceArray corresponding to the product to the Hessian of `loss`
     evaluated at `(params, inputs, targets)`.
   """
-  vs = jnp.eye(ravel(params).size)
+  flat_params = ravel(params)
+  # The tangents must have the type of the parameters.
+  vs = jnp.eye(flat_params.size, dtype=flat_params.dtype)
   comp = lambda v: jnp.vdot(v, ravel(hvp(loss, v, params, inputs, targets)))
   return jax.vmap(comp)(vs)
 
-- 
2.43.0


From 7df8aefd6a78cb1bec94b28669446f35380b6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 24/25] fix: add_noise with a whole number gamma does not
 overflow

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 5db15e8..0d9cad7 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -634,7 +634,8 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    # The power of integers would overflow.
+    variance = eta / count_inc.astype(float)**gamma
     std = jnp.sqrt(variance)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
-- 
2.43.0


From c44afc844939d4e13d6c2cb1bca0822585f936be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 25/25] fix: scale_by_sm3 accepts parameters of size zero

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 0d9cad7..2b6f7bd 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -776,7 +776,8 @@ def scale_by_sm3(
     if g.ndim < 2:
       return g
     else:
-      return jnp.max(g, axis=other_axes(i, g.ndim))
+      # (The initial value is for arrays of size zero.)
+      return jnp.max(g, axis=other_axes(i, g.ndim), initial=0)
 
   def other_axes(idx, ndim):
     return list(range(idx)) + list(range(idx+1, ndim))
-- 
2.43.0

