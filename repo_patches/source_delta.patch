From 05cbb96ea99ad660b3802ebb8e00b99910b2499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/50] fix: numba ewma must not update the caller's state in
 place

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..5bd94a7 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # numba_apply updates its arguments in place: work on copies of the caller's state.
+        mean = np.copy(state.mean)
+        old_wt = np.copy(state.old_wt)
+        nobs = np.copy(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 0c871c81f557d8e8ba63d2b9dc5c200d0f2538ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/50] fix: haiku PctChange without forward fill must lag its
 input

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From 9bc2974dbcb3760a0d131a8c4aaca6a2fea2089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/50] fix: haiku Lag with return_state returns the lagged
 value and the state

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e030349 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, state = super().__call__(x)
+            return buffer[0], state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From 6810a97b2a34af52fc57b7536e6474892e806b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 04/50] fix: haiku MaskStd must center along the requested axis

---
 src/wax/modules/mask_std.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..848e617 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -51,11 +51,13 @@ class MaskStd(hk.Module):
             x = jnp.nan_to_num(x)
 
             count = mask.sum(axis=self.axis)
-            mean = x.sum(axis=self.axis) / count
 
             if self.assume_centered:
                 diff = x
             else:
+                mean = x.sum(axis=self.axis, keepdims=True) / mask.sum(
+                    axis=self.axis, keepdims=True
+                )
                 diff = x - mean
 
             diff = ApplyMask()(mask, diff)
-- 
2.43.0


From a9ca2c425a32ab2eb01246006d4841fd2dc5cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 05/50] fix: MaskNormalize must align the scale with the
 reduced axis

---
 src/wax/flax/modules/mask_normalize.py | 3 +++
 src/wax/modules/mask_normalize.py      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..676dc46 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -54,6 +54,9 @@ class MaskNormalize(nn.Module):
             x_std = self.mask_std(mask, x)
 
             # Normalize by dividing by standard deviation
+            if self.axis is not None:
+                # Keep the reduced axis to align the scale with the data
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = x / x_std
 
             # Handle NaN and infinity values that may result from division
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..0a0b9b5 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,9 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                # keep the reduced axis to align the scale with the data
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
-- 
2.43.0


From 7c54a241b2bf566c437345a2bf23cfa582019944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 06/50] fix: flax MaskStd must treat missing values like its
 mean does

---
 src/wax/flax/modules/mask_std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 967b86b..22c19c6 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -74,7 +74,7 @@ class MaskStd(nn.Module):
                         mean = mean[None, ...] if x.ndim > 1 else mean
                     elif self.axis == 1:
                         mean = mean[..., None] if x.ndim > 1 else mean
-                diff = x - mean
+                diff = x_masked - mean
 
                 # Re-mask the differences
                 diff = self.apply_mask(mask, diff)
-- 
2.43.0


From ee75466ab759ba46f9d659216a515aaf40c2a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 07/50] fix: gym_static_unroll must keep the first output when
 skip_first is false

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From 5cf5d21b877eedd93322a14a9757a2ab87297a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 08/50] fix: unroll_stream with skip_first must not mix the
 leaves

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..03bdbee 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From d00fb7a8ddf4e4f80cd25f69df96c611e3907690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 09/50] fix: flax Buffer must keep its order when the write
 counter reaches the int32 range

---
 src/wax/flax/modules/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/buffer.py b/src/wax/flax/modules/buffer.py
index 643062f..da11c59 100644
--- a/src/wax/flax/modules/buffer.py
+++ b/src/wax/flax/modules/buffer.py
@@ -79,7 +79,9 @@ class Buffer(nn.Module):
         updated_buffer = current_buffer.at[write_pos].set(input)
 
         updated_len = jnp.minimum(current_len + 1, self.maxlen)
-        new_write_idx = current_write_idx + 1
+        # Wrap on a multiple of maxlen so that the write position survives int32 overflow
+        wrap = (jnp.iinfo(jnp.int32).max // self.maxlen) * self.maxlen
+        new_write_idx = jnp.where(current_write_idx + 1 >= wrap, 0, current_write_idx + 1)
 
         # Persist internal state
         buffer.value = updated_buffer
-- 
2.43.0


From 75f929133fd9d7f51fde78e00db556712e8da793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 10/50] fix: flax OHLC must ignore missing values as the Haiku
 module does

---
 src/wax/flax/modules/ohlc.py | 37 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..b68ce62 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -56,9 +56,6 @@ class OHLC(nn.Module):
         input = jnp.asarray(input)
         reset_on = jnp.asarray(reset_on)
 
-        # Use reset signal directly
-        should_reset = reset_on
-
         # Initialize OHLC state variables
         open_val = self.variable(
             "state", "open", lambda: jnp.full(input.shape, jnp.nan, input.dtype)
@@ -71,26 +68,28 @@ class OHLC(nn.Module):
             "state", "close", lambda: jnp.full(input.shape, jnp.nan, input.dtype)
         )
 
-        # Get current state values
-        current_open = open_val.value
-        current_high = high_val.value
-        current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
-
-        # Determine if this is the first valid input or a reset
-        is_first_or_reset = should_reset | jnp.isnan(current_open)
+        # Get current state values, a reset starts an empty bin
+        def start_bin(value):
+            return jnp.where(reset_on, jnp.full_like(value, jnp.nan), value)
 
-        # Update OPEN: set to input if first/reset, otherwise keep current
-        new_open = jnp.where(is_first_or_reset, input, current_open)
+        current_open = start_bin(open_val.value)
+        current_high = start_bin(high_val.value)
+        current_low = start_bin(low_val.value)
+        current_close = start_bin(close_val.value)
 
-        # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        # Update CLOSE: last valid input of the bin (missing values are ignored)
+        new_close = jnp.where(jnp.isnan(input), current_close, input)
 
-        # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        # Update OPEN: first valid input of the bin
+        new_open = jnp.where(jnp.isnan(current_open), new_close, current_open)
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Update HIGH and LOW: extremes of the valid inputs of the bin
+        new_high = jnp.where(
+            jnp.isnan(current_high) | (new_close > current_high), new_close, current_high
+        )
+        new_low = jnp.where(
+            jnp.isnan(current_low) | (new_close < current_low), new_close, current_low
+        )
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From 6d2b098a3489478bbf234496d4c028aacda99569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 11/50] fix: static_scan must support xs=None with a length
 like jax.lax.scan

---
 src/wax/unroll.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 9d06e47..7de6bfe 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -258,10 +258,12 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
     if xs is None:
-        xs = [None] * length
+        steps = (None for _ in range(length))
+    else:
+        steps = iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From a12df4a416d324268d2d26a41c1a5fbb780e3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 12/50] fix: dynamic_unroll_fori_loop must support nested
 outputs

---
 src/wax/unroll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 7de6bfe..0d1fcdf 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -359,7 +359,9 @@ def dynamic_unroll_fori_loop(
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
         outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
-        output_sequence = output_sequence.at[i].set(outputs)
+        output_sequence = tree_map(
+            lambda seq, out: seq.at[i].set(out), output_sequence, outputs
+        )
         return LoopState(
             params,
             next_state,
-- 
2.43.0


From e6e77a76419fc59a3b16d4da935868eaac28c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 13/50] fix: transform_batch_with_state must use the rng key
 given to apply

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 5cced48c75bb87925e5a38d1a273b92fb2e1c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 14/50] fix: add_batch without an apply-time rng must find the
 parameters created by init

---
 src/wax/modules/vmap.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wax/modules/vmap.py b/src/wax/modules/vmap.py
index 899c8e4..bbf0898 100644
--- a/src/wax/modules/vmap.py
+++ b/src/wax/modules/vmap.py
@@ -44,10 +44,8 @@ def add_batch(fun: Callable | TransformedWithState, take_mean=True):
     It should be used inside a transformed function."""
 
     def fun_batch(*args, **kwargs):
-        try:
-            res = vmap_lift_with_state(fun, split_rng=True)(*args, **kwargs)
-        except ValueError:
-            res = vmap_lift_with_state(fun, split_rng=False)(*args, **kwargs)
+        has_rng = hk.maybe_get_rng_sequence_state() is not None
+        res = vmap_lift_with_state(fun, split_rng=has_rng, init_rng=has_rng)(*args, **kwargs)
 
         if take_mean:
             res = jax.tree_util.tree_map(lambda x: x.mean(axis=0), res)
-- 
2.43.0


From 3f7641b64724b88f87e590b5693747cca4567f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 15/50] fix: stream merge must not push the first secondary
 observation twice

---
 src/wax/stream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 03bdbee..ee9c5ef 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -634,6 +634,13 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+
+        # the initialization observation is repeated by the generators: move the
+        # secondary streams to their actual first observation.
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream)
+
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From cec4f5890e1d441f25968349c6ab68f473b73725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 16/50] fix: stream index of static variables must address the
 same values at every step

---
 src/wax/stream.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index ee9c5ef..ddb3947 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -223,12 +223,11 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
             if not onp.shape(var):
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
-                values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # static variables are entirely accessed (along their first axis) at each step.
+                idx = onp.arange(len(var.values))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
-                    dims=("step", cast(str, dim) + "_flat_idx"),
+                    onp.tile(idx, (n_steps, 1)),
+                    dims=("step", cast(str, dim) + "_idx"),
                 )
     return dataset_index
 
-- 
2.43.0


From 16e8fe6588180d54810b64cdcc52d2be32d1d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 17/50] fix: stream access of buffered multi-dimensional data
 must mask whole rows

---
 src/wax/stream.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index ddb3947..df6569e 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -357,10 +357,12 @@ def access_data(step: int, x: Any, idx: Any):
     """
     step_idx = idx[step]
     # output = x[step_idx]
+    values = jnp.atleast_1d(x)[step_idx]
+    missing = jnp.reshape(step_idx < 0, step_idx.shape + (1,) * (values.ndim - step_idx.ndim))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        missing,
+        jnp.full_like(values, DTYPE_INIT_VALUES[x.dtype.type]),
+        values,
     )
     return output
 
-- 
2.43.0


From 626fe1325f86e40c2a7e84f65dced4ebb847561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 18/50] fix: less must order encoded negative integers (dates
 before 1970) first

---
 src/wax/encode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..afffcc6 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -201,6 +201,10 @@ def datetime64_encoder(values: Any) -> Encoder:
 def less(t1, t2):
     h1, l1 = t1
     h2, l2 = t2
+    # the high word carries the sign: flip it so that negative integers
+    # (dates before 1970) come first in the unsigned comparison.
+    sign = onp.uint32(0x80000000)
+    h1, h2 = h1 ^ sign, h2 ^ sign
     if h1 < h2:
         return True
     elif h1 > h2:
-- 
2.43.0


From 14d38160d0908e7606b84cefc36718b4e2708b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 19/50] fix: haiku OptaxOptimizer must pass the parameters to
 the gradient transformation

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From f859ef967bf9cca84a296218516535bebae7bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 20/50] fix: haiku FuncOptimizer must support functions with
 state

---
 src/wax/modules/func_optimizer.py | 3 +--
 src/wax/modules/update_params.py  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/modules/func_optimizer.py b/src/wax/modules/func_optimizer.py
index 309b82d..fe18ba6 100644
--- a/src/wax/modules/func_optimizer.py
+++ b/src/wax/modules/func_optimizer.py
@@ -14,7 +14,6 @@
 from collections.abc import Callable
 
 import haiku as hk
-import jax
 import jax.numpy as jnp
 
 from wax.modules import FillNanInf
@@ -64,7 +63,7 @@ class FuncOptimizer(hk.Module):
             ),
         )
         func = UpdateParams(self.func, params_predicate=self.params_predicate)
-        results, grads = jax.value_and_grad(func, has_aux=self.has_aux)(
+        results, grads = hk.value_and_grad(func, has_aux=self.has_aux)(
             trainable_params, *args, **kwargs
         )
         if self.grads_fill_nan_inf:
diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..869dd4a 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 907e6a069ce43aab7449cf95ff80c0e828601974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 21/50] fix: UpdateParams must treat every parameter as
 trainable without a predicate

---
 src/wax/modules/update_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index 869dd4a..7dc9d3c 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -36,7 +36,7 @@ class UpdateParams(hk.Module):
     ):
         super().__init__(name=name)
         self.func = func
-        self.params_predicate = params_predicate
+        self.params_predicate = params_predicate or pass_all_predicate
 
     def __call__(self, trainable_params, *args, **kwargs):
         init, apply = hk.transform_with_state(self.func)
-- 
2.43.0


From 8d0d2a81f367a6876cbd58b8d69fa93a53c2d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 22/50] fix: flax OnlineOptimizer and UpdateParams must work
 without a predicate

---
 src/wax/flax/modules/online_optimizer.py | 13 ++++++-------
 src/wax/flax/modules/update_params.py    | 17 +++++++----------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..e27f575 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -22,6 +22,8 @@ import jax
 import jax.numpy as jnp
 from jax.tree_util import tree_map
 
+from wax.predicate import pass_all_predicate
+
 from .optax_optimizer import OptaxOptimizer
 
 
@@ -51,12 +53,6 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.params_predicate = pass_all_predicate
-
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
             if hasattr(self.opt, "init") and hasattr(self.opt, "update"):
@@ -123,6 +119,9 @@ class OnlineOptimizer(nn.Module):
             params = current_vars
             state = {}
 
+        # Every parameter is trainable if no predicate is provided
+        params_predicate = self.params_predicate or pass_all_predicate
+
         # Partition parameters into trainable and non-trainable
         def partition_params(params):
             trainable = {}
@@ -134,7 +133,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if params_predicate(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..38c290e 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -20,6 +20,8 @@ import flax.linen as nn
 import jax
 from flax.traverse_util import flatten_dict, unflatten_dict
 
+from wax.predicate import pass_all_predicate
+
 
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
@@ -31,14 +33,6 @@ class UpdateParams(nn.Module):
     fun: Callable  # Function to wrap
     predicate: Callable | None = None  # Predicate to determine trainable params
 
-    def setup(self):
-        """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.predicate = pass_all_predicate
-
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
         """Apply function with parameter partitioning.
@@ -78,9 +72,12 @@ class UpdateParams(nn.Module):
         Returns:
             Tuple of (trainable_params, non_trainable_params)
         """
+        # Every parameter is trainable if no predicate is provided
+        predicate = self.predicate or pass_all_predicate
+
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if predicate("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +95,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if predicate(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 55bcd82e133add6473526ffefe88e745e727f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 23/50] fix: flax optimizers lost the non-trainable parameters
 of modules that also own trainable ones

---
 src/wax/flax/modules/online_optimizer.py | 26 ++++++++++--------------
 src/wax/flax/modules/update_params.py    |  7 +++----
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index e27f575..f803d57 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -20,6 +20,7 @@ from typing import Any
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
+from flax.traverse_util import flatten_dict, unflatten_dict
 from jax.tree_util import tree_map
 
 from wax.predicate import pass_all_predicate
@@ -127,27 +128,24 @@ class OnlineOptimizer(nn.Module):
             trainable = {}
             non_trainable = {}
 
-            from flax.traverse_util import flatten_dict, unflatten_dict
-
-            flat_params = flatten_dict(params, sep="/")
-
-            for key, value in flat_params.items():
-                path = key.split("/")
+            for path, value in flatten_dict(params).items():
                 if params_predicate(path[0] if path else "", path[-1] if path else "", value):
-                    trainable[key] = value
+                    trainable[path] = value
                 else:
-                    non_trainable[key] = value
+                    non_trainable[path] = value
+
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+        def merge_params(trainable, non_trainable):
+            # A module can own both trainable and non-trainable parameters
+            return unflatten_dict({**flatten_dict(non_trainable), **flatten_dict(trainable)})
 
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -183,9 +181,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 38c290e..5f8e809 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -127,10 +127,9 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            return unflatten_dict(
+                {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            )
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From c0906b3020a7a04f9aa990ca60d5f004cf3009d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 24/50] fix: flax OnlineOptimizer must keep the state of its
 model

---
 src/wax/flax/modules/online_optimizer.py | 35 ++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index f803d57..ad50481 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -80,9 +80,9 @@ class OnlineOptimizer(nn.Module):
         # name ("params", "state", ...); empty until the model has been initialized.
         model_vars: nn.Variable[dict[str, Any]] = self.variable("model_vars", "vars", lambda: {})
 
-        # Check if model is a TransformedWithState or regular function
-        if hasattr(self.model, "init") and hasattr(self.model, "apply"):
-            # It's a TransformedWithState
+        # Check if model is a Flax module, a TransformedWithState or regular function
+        if isinstance(self.model, nn.Module):
+            # It's a Flax module
             if not model_vars.value:
                 # Initialize model
                 dummy_rng = jax.random.PRNGKey(0)
@@ -91,16 +91,20 @@ class OnlineOptimizer(nn.Module):
 
             def model_fn(params, state, *args, **kwargs):
                 vars_dict = {"params": params, **state}
-                result = self.model.apply(vars_dict, *args, **kwargs)
-                return result
+                result, updates = self.model.apply(
+                    vars_dict, *args, mutable=list(state), **kwargs
+                )
+                return result, {**state, **updates}
 
         else:
-            # It's a regular function - need to transform it
-            import haiku as hk
+            if hasattr(self.model, "init") and hasattr(self.model, "apply"):
+                # It's a TransformedWithState
+                wrapped_model = self.model
+            else:
+                # It's a regular function - need to transform it
+                import haiku as hk
 
-            @hk.transform_with_state
-            def wrapped_model(*args, **kwargs):
-                return self.model(*args, **kwargs)
+                wrapped_model = hk.transform_with_state(self.model)
 
             if not model_vars.value:
                 dummy_rng = jax.random.PRNGKey(0)
@@ -108,7 +112,10 @@ class OnlineOptimizer(nn.Module):
                 model_vars.value = {"params": params, "state": state}
 
             def model_fn(params, state, *args, **kwargs):
-                return wrapped_model.apply(params, state, jax.random.PRNGKey(0), *args, **kwargs)
+                result, new_state = wrapped_model.apply(
+                    params, state["state"], jax.random.PRNGKey(0), *args, **kwargs
+                )
+                return result, {"state": new_state}
 
         # Extract current parameters and state
         current_vars = model_vars.value
@@ -148,7 +155,7 @@ class OnlineOptimizer(nn.Module):
             merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
-            result = model_fn(merged_params, state, *args, **kwargs)
+            result, new_state = model_fn(merged_params, state, *args, **kwargs)
 
             # Handle different return types
             if isinstance(result, tuple):
@@ -165,10 +172,10 @@ class OnlineOptimizer(nn.Module):
             if self.regularize_loss is not None:
                 loss = self.regularize_loss(loss, merged_params, aux)
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
-        (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
+        (loss, (aux, state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
 
         # Handle NaN gradients
         grads = tree_map(lambda x: jnp.nan_to_num(x), grads)
-- 
2.43.0


From 23e2d6136288616ca84ac4ab17cf8e83c4037c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 25/50] fix: flax OnlineSupervisedLearner must learn the
 parameters of its model

---
 .../flax/modules/online_supervised_learner.py | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..4891c91 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,18 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class ModelLoss(nn.Module):
+    """Loss of a model, with its predictions as auxiliary data."""
+
+    model: Callable  # Model function/module
+    loss_fn: Callable  # Loss function
+
+    @nn.compact
+    def __call__(self, x, y):
+        predictions = self.model(x)
+        return self.loss_fn(predictions, y), predictions
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -37,21 +49,10 @@ class OnlineSupervisedLearner(nn.Module):
     def setup(self):
         """Setup the OnlineSupervisedLearner module."""
 
-        # Create a combined function that applies model and computes loss
-        def model_loss_fn(x, y):
-            """Combined model and loss function."""
-            # Apply model to get predictions
-            predictions = self.model(x)
-
-            # Compute loss
-            loss = self.loss_fn(predictions, y)
-
-            # Return loss and predictions as auxiliary data
-            return loss, predictions
-
-        # Create function optimizer
+        # Create function optimizer. The combination of model and loss is a module,
+        # so that the function optimizer initializes and updates its parameters.
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=ModelLoss(model=self.model, loss_fn=self.loss_fn),
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From 179e5b163c4ce1fc43840686724c6b272fa0613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 26/50] fix: sherman_morrison must divide by 1 + v^T A^-1 u

---
 src/wax/optim/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/optim/newton.py b/src/wax/optim/newton.py
index 0349d5f..cecfaec 100644
--- a/src/wax/optim/newton.py
+++ b/src/wax/optim/newton.py
@@ -54,7 +54,7 @@ class ScaleByNewtonState(NamedTuple):
 
 
 def sherman_morrison(A_inv, u, v):
-    den = 1.0 + (u @ A_inv) @ v
+    den = 1.0 + (v @ A_inv) @ u
     A_inv -= A_inv @ jnp.outer(u, v) @ A_inv / den
     return A_inv
 
-- 
2.43.0


From cde51788f520bfb2a87c8c6618afc3fbcbf8be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 27/50] fix: flax ARMA must keep its own past outputs and
 inputs

---
 src/wax/flax/modules/arma.py | 56 ++++++++++++------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..822caac 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -13,12 +13,9 @@
 # limitations under the License.
 """Flax-based ARMA module for Autoregressive Moving Average filtering."""
 
-from typing import cast
-
 import flax.linen as nn
 import jax.numpy as jnp
 
-from .buffer import Buffer
 from .fill_nan_inf import FillNanInf
 
 
@@ -29,7 +26,7 @@ class ARMA(nn.Module):
     moving average (MA) components for time-series processing.
 
     The ARMA model is defined as:
-    y[t] = sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
+    y[t] = eps[t] + sum(alpha[i] * y[t-i-1]) + sum(beta[j] * eps[t-j-1])
 
     where:
     - alpha: AR coefficients
@@ -48,18 +45,10 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
-
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -72,36 +61,29 @@ class ARMA(nn.Module):
         # Ensure input is an array
         eps = jnp.asarray(eps)
 
-        # Initialize output with current input (eps term)
-        output = eps
-
-        # Autoregressive component: sum(alpha[i] * y[t-i])
-        if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
+        dtype = jnp.result_type(eps, self.alpha, self.beta)
 
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
+        # Previous outputs and inputs, most recent first, so that the i-th coefficient
+        # applies to lag i + 1.  They are read before the current step is recorded.
+        ar_history = self.variable(
+            "state", "ar_history", jnp.zeros, (len(self.alpha),) + eps.shape, dtype
+        )
+        ma_history = self.variable(
+            "state", "ma_history", jnp.zeros, (len(self.beta),) + eps.shape, dtype
+        )
 
-        # Moving average component: sum(beta[j] * eps[t-j])
-        if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
-
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
-
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
+        output = (
+            eps
+            + jnp.tensordot(self.alpha, ar_history.value, axes=1)
+            + jnp.tensordot(self.beta, ma_history.value, axes=1)
+        )
 
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        ar_history.value = jnp.concatenate([output[None], ar_history.value])[: len(self.alpha)]
+        ma_history.value = jnp.concatenate([eps[None], ma_history.value])[: len(self.beta)]
+
         return output
 
 
-- 
2.43.0


From b873b8323ee32724eac493a24185a19605e5f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 28/50] fix: MultiIndex DataFrame streams must keep missing
 observations

---
 src/wax/accessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..be3b9c9 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -197,7 +197,10 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            # missing values must be kept: they are observations of the stream.
+            dataarray = dataframe.stack(
+                list(range(dataframe.columns.nlevels)), future_stack=True
+            ).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From b1afb1934f96e7c768e76de48ea9f21eee9397e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 29/50] fix: skip_first must drop the first label of formatted
 outputs

---
 src/wax/accessors.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index be3b9c9..842b258 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -24,12 +24,20 @@ import xarray as xr
 from jax.tree_util import tree_map
 
 from wax.format import format_dataarray, format_dataframe, format_dataset, format_series
-from wax.stream import Stream
+from wax.stream import Stream, get_dataset_time_coords
 
 # DTypeLike = TypeVar("DTypeLike")
 DTypeLike = str
 
 
+def _output_coords(stream: Stream, dataset: xr.Dataset, skip_first: bool):
+    """Coordinates of the outputs: the first local time is dropped with `skip_first`."""
+    if skip_first:
+        local_time = stream.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+        dataset = dataset.isel({local_time: slice(1, None)})
+    return dataset.coords
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -74,12 +82,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _output_coords(self, dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +146,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -218,13 +228,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _output_coords(self, dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -233,7 +244,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -295,15 +306,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
-- 
2.43.0


From dacffe4fb2df15c8ce4c2c112f537614e69dbb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 30/50] fix: ewm accessor must accept positional options

---
 src/wax/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 842b258..fa482cb 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -324,7 +324,7 @@ class StreamSeries(Stream):
 
 class WaxAccessor:
     def ewm(self, *args, **kwargs):
-        return ExponentialMovingWindow(*args, accessor=self, **kwargs)
+        return ExponentialMovingWindow(self, *args, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 6d91e69415676bb9ef5837a11ff3a25c1ab27eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 31/50] fix: streaming_scan must use each of the given params,
 state and rng

---
 src/wax/flax/core/streaming_transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..9447648 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -671,7 +671,10 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = rng if rng is not None else jax.random.PRNGKey(0)
+                init_params, init_state = streaming_fn.init(init_rng, sample_input)
+                params = init_params if params is None else params
+                state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From 9ca1bd8e93c5c75a106558c9acdcbe0332d097dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 32/50] fix: StreamingScan reset condition must accept traced
 inputs

---
 src/wax/flax/core/streaming_transforms.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 9447648..effd566 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -603,15 +603,14 @@ class StreamingScan(nn.Module):
         def scan_fn(carry, x):
             """Inner scan function with reset logic."""
 
-            # Check if we should reset state
-            should_reset = False
-            if self.reset_fn is not None:
+            # Reset to initial state if needed (the condition may depend on traced inputs)
+            if self.reset_fn is not None and self.preserve_state:
                 should_reset = self.reset_fn(x)
-
-            # Reset state if needed
-            if should_reset and self.preserve_state:
-                # Reset to initial state
-                carry = initial_state
+                carry = jax.tree_util.tree_map(
+                    lambda init_val, val: jnp.where(should_reset, init_val, val),
+                    initial_state,
+                    carry,
+                )
 
             # Apply the streaming function
             # For now, we'll implement a simple pass-through that maintains carry structure
-- 
2.43.0


From d5753547cb1f4dcf1bb33177fb02135d315c8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 33/50] fix: quantile compression must not count unfilled slots
 as data

---
 src/wax/flax/modules/compressed_buffer.py | 34 ++++++++---------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..f063fb6 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -141,7 +141,8 @@ class CompressedBuffer(nn.Module):
         self.percentiles = jnp.array(percentiles)
 
         # Buffer for computing quantiles
-        self.quantile_buffer = Buffer(maxlen=min(self.maxlen, 1000), fill_value=self.fill_value)
+        # (slots which are not filled yet are missing values: they are not data)
+        self.quantile_buffer = Buffer(maxlen=min(self.maxlen, 1000), fill_value=jnp.nan)
 
         # Store quantile estimates
         num_quantiles = len(percentiles)
@@ -215,30 +216,17 @@ class CompressedBuffer(nn.Module):
         """Update quantile-based compression."""
         # Add to quantile buffer
         # The buffer is built with return_state left at its default (False).
-        buffered_values = cast(jnp.ndarray, self.quantile_buffer(x))
+        # Missing values need a floating type.
+        buffered_values = cast(jnp.ndarray, self.quantile_buffer(x * 1.0))
 
-        # Update quantiles periodically
+        # Update quantiles every 10 samples (linear interpolation, missing values ignored)
         update_count = self.update_count.value
-        if update_count % 10 == 0:  # Update every 10 samples
-            # Compute quantiles from buffer
-            valid_mask = ~jnp.isnan(buffered_values)
-            if jnp.sum(valid_mask) > 0:
-                valid_values = buffered_values[valid_mask]
-                sorted_values = jnp.sort(valid_values)
-                n = len(sorted_values)
-
-                # Compute quantile indices
-                indices = self.percentiles * (n - 1)
-                lower_indices = jnp.floor(indices).astype(jnp.int32)
-                upper_indices = jnp.ceil(indices).astype(jnp.int32)
-
-                # Linear interpolation for quantiles
-                lower_values = sorted_values[lower_indices]
-                upper_values = sorted_values[upper_indices]
-                weights = indices - lower_indices
-
-                quantiles = lower_values + weights * (upper_values - lower_values)
-                self.quantile_estimates.value = quantiles
+        estimates = jnp.nanquantile(buffered_values, self.percentiles)
+        self.quantile_estimates.value = jnp.where(
+            (update_count % 10 == 0) & ~jnp.isnan(estimates),
+            estimates,
+            self.quantile_estimates.value,
+        )
 
         self.update_count.value = update_count + 1
 
-- 
2.43.0


From 3ab4c69c352b64f1c2ddca6ecadf10b656f82214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 34/50] fix: downsample compression must return its samples in
 order at every step

---
 src/wax/flax/modules/compressed_buffer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index f063fb6..5918148 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -240,14 +240,18 @@ class CompressedBuffer(nn.Module):
         if counter % self.downsample_factor == 0:
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
-            # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            # Return current buffer content without update
+            downsampled_data = self._ordered_content(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
 
+    @staticmethod
+    def _ordered_content(buffer: Buffer) -> jnp.ndarray:
+        """Content of a circular buffer in logical order (oldest first, newest last)."""
+        state = buffer.variables["state"]
+        return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
     def _sketching_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update Count-Min sketch."""
         sketch = self.sketch.value
-- 
2.43.0


From b040abffcdc1e131e7dbba65019fbca27716e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 35/50] fix: HierarchicalBuffer must return the current content
 of its levels between updates

---
 src/wax/flax/modules/compressed_buffer.py | 31 +++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 5918148..b6ea053 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -276,6 +276,20 @@ class CompressedBuffer(nn.Module):
         """Update without compression."""
         return cast(jnp.ndarray, self.uncompressed_buffer(x))
 
+    def current(self) -> jnp.ndarray:
+        """Current compressed representation, without adding an element."""
+        if self.compression == "ewma":
+            # the stored state is an array as soon as an element has been added.
+            return cast(jnp.ndarray, self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return self._ordered_content(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return self._ordered_content(self.uncompressed_buffer)
+
     def get_memory_usage(self) -> dict[str, int]:
         """Get estimated memory usage in bytes."""
         # Use compression params or defaults for calculations
@@ -389,25 +403,16 @@ class HierarchicalBuffer(nn.Module):
         if medium_counter % 5 == 0:  # Update every 5 steps
             medium_data = self.medium_buffer(x)
         else:
-            # Return current medium buffer state
-            # Step 0 always updates (0 % 5 == 0), so the stored state is an array
-            # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            # Return current medium buffer state (step 0 always updates: 0 % n == 0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
         if long_counter % 50 == 0:  # Update every 50 steps
             long_data = self.long_buffer(x)
         else:
-            # Return current long buffer state
-            # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            # Return current long buffer state (step 0 always updates: 0 % n == 0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 6cc33d18746db39ab455e295eaa5843dff604e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 36/50] fix: profile_streaming must record each call once, with
 its time and data

---
 src/wax/flax/debug/profiler.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..dff9470 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,22 +547,15 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        ctx.input_data = args[0] if args and enable_detailed_tracking else None
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        ctx.output_data = result if enable_detailed_tracking else None
 
+                        # The context manager records the metrics of the call
                         return result
 
                 return profile_apply
-- 
2.43.0


From b737f24f083fdeb5eb556dd14beef3e7992396e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 37/50] fix: create_performance_report must report an empty
 profile instead of raising

---
 src/wax/flax/debug/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index dff9470..b5ee85e 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -572,6 +572,9 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     """Create a human-readable performance report."""
     summary = profile_result.get_summary()
 
+    if "error" in summary:
+        return f"Performance Report Error: {summary['error']}"
+
     report = []
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
-- 
2.43.0


From 3d6a88f1520f8c14f5f050163363b2694d7ed2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 38/50] fix: memory growth per step must be regressed on the
 recorded steps

---
 src/wax/flax/debug/memory_tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..650791b 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -390,7 +390,7 @@ class MemoryTracker:
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
-            x_values = list(range(len(memory_values)))
+            x_values = [s.step for s in recent_snapshots]
             n = len(memory_values)
 
             # Calculate slope (growth rate)
@@ -401,8 +401,7 @@ class MemoryTracker:
             denominator = sum((x_values[i] - x_mean) ** 2 for i in range(n))
 
             if denominator > 0:
-                slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = numerator / denominator  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From 12ddd03902c8cf4e2821301bd436088500cf36aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 39/50] fix: memory tracking must analyse every mapping state
 (FrozenDict)

---
 src/wax/flax/debug/memory_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 650791b..173e04d 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -40,7 +40,7 @@ import time
 import tracemalloc
 import weakref
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any
 
@@ -323,7 +323,7 @@ class MemoryTracker:
         buffers_mb = 0.0
 
         try:
-            if isinstance(state, dict):
+            if isinstance(state, Mapping):
                 # Handle Flax variable collections
                 if "params" in state:
                     parameters_mb = self._calculate_tree_memory(state["params"])
-- 
2.43.0


From 09a5ad51e1864b2f646430b5ffd0e4300d6b300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 40/50] fix: debugger copies must keep NamedTuples

---
 src/wax/flax/debug/debugger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..215ca58 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -145,6 +145,8 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -329,6 +331,8 @@ class StreamingDebugger:
                 return jnp.copy(tree)
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, (list, tuple)):
                 return type(tree)(self._safe_copy_tree(item) for item in tree)
             else:
-- 
2.43.0


From ca65c72f7ce5310e9497f93155d6def27ad64be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 41/50] fix: ARMA state must have the dtype of its outputs
 (unrolling integer inputs raised)

---
 src/wax/modules/arma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/arma.py b/src/wax/modules/arma.py
index 4648ef6..1251f47 100644
--- a/src/wax/modules/arma.py
+++ b/src/wax/modules/arma.py
@@ -34,7 +34,7 @@ class ARMA(hk.Module):
         y_buffer = hk.get_state(
             "y_buffer",
             eps.shape,
-            eps.dtype,
+            jnp.result_type(eps, self.alpha, self.beta),
             init=lambda shape, dtype: jnp.zeros(((len(self.alpha),) + shape), dtype=dtype),
         )
 
-- 
2.43.0


From 03232103971019dee84cc4e72ba643dd76db6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 42/50] fix: debug records must keep an execution time of zero

---
 src/wax/flax/debug/debugger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 215ca58..e733545 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -289,7 +289,9 @@ class StreamingDebugger:
             for hook in self.hooks.values():
                 if hook.check_condition(self.current_step, state, input_data, output):
                     metadata = {
-                        "execution_time_ms": execution_time * 1000 if execution_time else None,
+                        "execution_time_ms": execution_time * 1000
+                        if execution_time is not None
+                        else None,
                         "session_time": time.time() - self.session_start_time,
                     }
                     hook.trigger(
-- 
2.43.0


From 761149bbc1942834e659786d6b1e782e96481580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 43/50] fix: computation graph must include modules below a
 module that owns parameters

---
 src/wax/flax/visualization/computation_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..8de2301 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -256,9 +256,9 @@ class ComputationGraphRenderer:
                     if parent_path and parent_path in self.nodes:
                         edge = PipelineEdge(source=parent_path, target=node_path, label="module")
                         self.edges.append(edge)
-                else:
-                    # Recurse into nested structure
-                    self._extract_modules_from_params(value, node_path)
+
+                # Recurse into nested structure
+                self._extract_modules_from_params(value, node_path)
 
     def _infer_module_type(self, name: str, params: dict) -> str:
         """Infer module type from name and parameters."""
-- 
2.43.0


From 30d4a00297da73769b69470450c863e2ffc67ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 44/50] fix: a module is the parent only of names below its own
 name

---
 src/wax/flax/visualization/nested_graph_viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index a41c9fd..8d3aa30 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -249,7 +249,7 @@ class HierarchicalGraphAnalyzer:
             if (
                 other_id != node_id
                 and other_node.module_type == "Module"
-                and node_id.startswith(other_id)
+                and node_id.startswith(f"{other_id}.")
             ):
                 return other_id
 
-- 
2.43.0


From eb2084e5e5cdee683ba367305db95345d5b4a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 45/50] fix: get_recent_data(0) must return no data

---
 src/wax/flax/visualization/data_flow_visualizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..4bf54dd 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -157,7 +157,8 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        history = list(self.data_history)
+        return history[max(len(history) - n_points, 0) :]
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 11e633072d09fc3fce0a991bf22a30f4dad1a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 46/50] fix: text plot must show arrays of size one of any rank

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 4bf54dd..f1fd7c1 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -360,7 +360,7 @@ class DataFlowVisualizer:
         """Format a value for text display."""
         if isinstance(value, jnp.ndarray):
             if value.size == 1:
-                return f"{float(value):.3f}"
+                return f"{value.item():.3f}"
             else:
                 return f"array{value.shape}"
         elif isinstance(value, int | float):
-- 
2.43.0


From e4a5900de5e18799402de25e0d37ce5a1fb34c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:30 +0000
Subject: [PATCH 47/50] fix: plots must show only the selected modules and data
 types

---
 .../visualization/data_flow_visualizer.py     | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index f1fd7c1..d665bb7 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -236,6 +236,18 @@ class DataFlowVisualizer:
         else:
             return self._create_text_plot(module_names, data_types, plot_type)
 
+    def _get_plot_data(
+        self, n_points: int, module_names: list[str] | None, data_types: list[str] | None
+    ) -> list[DataPoint]:
+        """Get the most recent n data points of the selected modules and data types."""
+        points = [
+            dp
+            for dp in self.tracker.data_history
+            if (module_names is None or dp.module_name in module_names)
+            and (data_types is None or dp.data_type in data_types)
+        ]
+        return points[max(len(points) - n_points, 0) :]
+
     def _create_matplotlib_plot(
         self, module_names: list[str] | None, data_types: list[str] | None, plot_type: str
     ) -> Any:
@@ -283,7 +295,13 @@ class DataFlowVisualizer:
         }
 
         # Store plot references
-        self.active_plots["matplotlib"] = {"fig": fig, "axes": axes, "data": plot_data}
+        self.active_plots["matplotlib"] = {
+            "fig": fig,
+            "axes": axes,
+            "data": plot_data,
+            "module_names": module_names,
+            "data_types": data_types,
+        }
 
         return fig
 
@@ -326,7 +344,7 @@ class DataFlowVisualizer:
         if not self.tracker:
             return "No data tracker attached"
 
-        recent_data = self.tracker.get_recent_data(20)
+        recent_data = self._get_plot_data(20, module_names, data_types)
 
         lines = ["WAX-ML Streaming Data Flow", "=" * 40, ""]
 
@@ -390,7 +408,9 @@ class DataFlowVisualizer:
         plot_info["data"]
 
         # Get recent data
-        recent_data = self.tracker.get_recent_data(self.max_points)
+        recent_data = self._get_plot_data(
+            self.max_points, plot_info["module_names"], plot_info["data_types"]
+        )
 
         if not recent_data:
             return
-- 
2.43.0


From 26fa9a1be80cdae743a2333ba2f77c459207dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 48/50] fix: treat integer and boolean observations like floats

Missing values and unfilled slots are marked with NaN, which integers cannot
hold: the moving averages, percentage change, OHLC and mask statistics gave
silently wrong results (or failed) on integer data.
---
 src/wax/flax/modules/ewma.py         | 3 +++
 src/wax/flax/modules/ewmcov.py       | 5 +++--
 src/wax/flax/modules/ewmvar.py       | 4 ++++
 src/wax/flax/modules/mask_std.py     | 2 ++
 src/wax/flax/modules/ohlc.py         | 3 ++-
 src/wax/flax/modules/pct_change.py   | 3 +++
 src/wax/flax/modules/rolling_mean.py | 3 ++-
 src/wax/modules/ewma.py              | 3 +++
 src/wax/modules/ewmcov.py            | 2 ++
 src/wax/modules/ewmvar.py            | 3 +++
 src/wax/modules/ohlc.py              | 4 ++++
 src/wax/modules/pct_change.py        | 2 ++
 src/wax/modules/rolling_mean.py      | 3 ++-
 src/wax/numba/ewma_numba.py          | 2 ++
 src/wax/utils.py                     | 6 ++++++
 15 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 646b0ad..b800cd5 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from ...utils import as_float
+
 
 class EWMA(nn.Module):
     """Flax-based Exponential Moving Average module.
@@ -64,6 +66,7 @@ class EWMA(nn.Module):
             info: Optional dictionary with additional variables (if return_info=True)
         """
         info = {}
+        x = as_float(x)
 
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index 33d6fae..ab3c8c3 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -18,6 +18,7 @@ import warnings
 import flax.linen as nn
 import jax.numpy as jnp
 
+from ...utils import as_float
 from .ewma import EWMA
 
 
@@ -93,8 +94,8 @@ class EWMCov(nn.Module):
             raise ValueError("Expected either (x, y) or ((x, y),)")
 
         # Ensure inputs are arrays (handle scalar inputs)
-        x = jnp.asarray(x)
-        y = jnp.asarray(y)
+        x = as_float(jnp.asarray(x))
+        y = as_float(jnp.asarray(y))
 
         # Compute outer product for XY term
         xy = jnp.outer(x, y)
diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 5da9b89..6ad80e6 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from ...utils import as_float
+
 
 class EWMVar(nn.Module):
     """Flax-based Exponentially Weighted Moving Variance module.
@@ -59,6 +61,8 @@ class EWMVar(nn.Module):
         Returns:
             Exponentially weighted variance
         """
+        x = as_float(x)
+
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
             "logcom",
diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 22c19c6..ccdb64e 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -18,6 +18,7 @@ from typing import Any
 import flax.linen as nn
 import jax.numpy as jnp
 
+from ...utils import as_float
 from .apply_mask import ApplyMask
 
 
@@ -48,6 +49,7 @@ class MaskStd(nn.Module):
         """
 
         def mask_std_fn(x):
+            x = as_float(x)
             # Numerical epsilon for stability
             eps = jnp.finfo(x.dtype).eps
 
diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index b68ce62..24a82bb 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -18,6 +18,7 @@ from typing import NamedTuple
 import flax.linen as nn
 import jax.numpy as jnp
 
+from ...utils import as_float
 from .has_changed import HasChanged
 
 
@@ -53,7 +54,7 @@ class OHLC(nn.Module):
             OHLCData containing current OPEN, HIGH, LOW, CLOSE values
         """
         # Ensure input is an array
-        input = jnp.asarray(input)
+        input = as_float(jnp.asarray(input))
         reset_on = jnp.asarray(reset_on)
 
         # Initialize OHLC state variables
diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 541246e..ed3b6bc 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -16,6 +16,7 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from ...utils import as_float
 from .ffill import Ffill
 from .lag import Lag
 
@@ -49,6 +50,8 @@ class PctChange(nn.Module):
         Returns:
             Percentage change: (current / previous) - 1.0
         """
+        x = as_float(x)
+
         # Get previous value, with optional forward-filling
         if self.fill_method in ["ffill", "pad"]:
             # Forward fill NaN values before computing lag
diff --git a/src/wax/flax/modules/rolling_mean.py b/src/wax/flax/modules/rolling_mean.py
index 1fad9f5..8d4927b 100644
--- a/src/wax/flax/modules/rolling_mean.py
+++ b/src/wax/flax/modules/rolling_mean.py
@@ -16,6 +16,7 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from ...utils import as_float
 from .buffer import Buffer
 
 
@@ -45,7 +46,7 @@ class RollingMean(nn.Module):
             Rolling mean over the window, or NaN if insufficient data
         """
         # Get buffer with current window of values
-        buffer, attrs = self.buffer(x)
+        buffer, attrs = self.buffer(as_float(x))
 
         # Sum valid (non-NaN) values in the buffer
         # Replace NaN with 0.0 for proper summation
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 60f3a89..3abd759 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -18,6 +18,8 @@ from typing import cast
 import haiku as hk
 from jax import numpy as jnp
 
+from wax.utils import as_float
+
 
 class EWMA(hk.Module):
     """Compute exponential moving average."""
@@ -114,6 +116,7 @@ class EWMA(hk.Module):
             info: A dictionnary with additionnal variables. It is returned if `return_info` is true.
         """
         info = {}
+        x = as_float(x)
 
         logcom = hk.get_parameter(
             "logcom",
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index 2fb6a05..fb39310 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.ewma import EWMA
+from wax.utils import as_float
 
 
 class EWMCov(hk.Module):
@@ -121,6 +122,7 @@ class EWMCov(hk.Module):
                 stacklevel=2,
             )
             x, y = x
+        x, y = as_float(x), as_float(y)
         mean_xy = EWMA(
             com=self.com,
             min_periods=self.min_periods,
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index c00ec1f..94a6797 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -16,6 +16,8 @@
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_float
+
 
 class EWMVar(hk.Module):
     """Compute exponentially weighted variance.
@@ -70,6 +72,7 @@ class EWMVar(hk.Module):
             variance := (1 - alpha) * (variance + diff * incr)
         """
 
+        x = as_float(x)
         logcom = hk.get_parameter(
             "logcom",
             shape=[],
diff --git a/src/wax/modules/ohlc.py b/src/wax/modules/ohlc.py
index 9a8ada1..3cc8feb 100644
--- a/src/wax/modules/ohlc.py
+++ b/src/wax/modules/ohlc.py
@@ -18,6 +18,8 @@ from typing import NamedTuple
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_float
+
 
 class OHLCData(NamedTuple):
     OPEN: jnp.ndarray
@@ -33,6 +35,8 @@ class OHLC(hk.Module):
         super().__init__(name=name)
 
     def __call__(self, input: jnp.ndarray, *, reset_on: bool):
+        input = as_float(input)
+
         def init_array(shape, dtype):
             return jnp.full(shape, fill_value=jnp.nan, dtype=dtype)
 
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 11259fb..6693668 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules import Ffill, Lag
+from wax.utils import as_float
 
 
 class PctChange(hk.Module):
@@ -51,6 +52,7 @@ class PctChange(hk.Module):
         assert periods == 1, "periods > 1 not implemented."
 
     def __call__(self, x):
+        x = as_float(x)
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
diff --git a/src/wax/modules/rolling_mean.py b/src/wax/modules/rolling_mean.py
index bd501f0..02dde79 100644
--- a/src/wax/modules/rolling_mean.py
+++ b/src/wax/modules/rolling_mean.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.buffer import Buffer
+from wax.utils import as_float
 
 
 class RollingMean(hk.Module):
@@ -35,7 +36,7 @@ class RollingMean(hk.Module):
         self.min_periods = min_periods
 
     def __call__(self, x):
-        buffer, attrs = Buffer(self.horizon, return_state=True)(x)
+        buffer, attrs = Buffer(self.horizon, return_state=True)(as_float(x))
         sum = jnp.where(jnp.logical_not(jnp.isnan(buffer)), buffer, 0.0).sum(axis=0)
         count = jnp.where(jnp.logical_not(jnp.isnan(buffer)), 1, 0).sum(axis=0)
         mean = jnp.where(count >= self.min_periods, sum / count, jnp.nan)
diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 5bd94a7..8704096 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -108,6 +108,8 @@ def ewma(
         return state
 
     def apply(values: np.ndarray, state: Optional[EWMAState] = None):
+        if values.dtype.kind in "biu":
+            values = values.astype(float)
         is_1d = False
         if values.ndim == 1:
             values = values.reshape(-1, 1)
diff --git a/src/wax/utils.py b/src/wax/utils.py
index c95ffac..4ab5d40 100644
--- a/src/wax/utils.py
+++ b/src/wax/utils.py
@@ -13,9 +13,15 @@
 # limitations under the License.
 """Some utils functions used in WAX-ML."""
 
+import jax.numpy as jnp
 from jax.tree_util import tree_flatten
 
 
+def as_float(x):
+    """Represent integers and booleans as floats, for modules that mark missing values with NaN."""
+    return jnp.asarray(x, dtype=jnp.result_type(x, float))
+
+
 def dict_map(fun, col):
     return {key: fun(val) for key, val in col.items()}
 
-- 
2.43.0


From b34c1fba99ffe810727b2b63400807df7ec58432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:53 +0000
Subject: [PATCH 49/50] fix: numba ewm accessor takes options by position and
 starts new columns afresh when resumed

---
 src/wax/numba/ewma_numba.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 8704096..43edf9b 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -192,7 +192,7 @@ def ewma(
 
 class WaxAccessor:
     def ewm(self, *args, **kwargs):
-        return NumbaExponentialMovingWindow(accessor=self, *args, **kwargs)
+        return NumbaExponentialMovingWindow(self, *args, **kwargs)
 
 
 @dataclass(frozen=True)
@@ -220,11 +220,13 @@ class NumbaExponentialMovingWindow:
             return_state,
         ):
             if state is not None:
+                # columns without a state start afresh
+                is_new = ~obj.columns.isin(state.index)
                 state = state.reindex(obj.columns)
                 state = EWMAState(
-                    mean=state["mean"].values,
-                    old_wt=state["old_wt"].values,
-                    nobs=state["nobs"].values,
+                    mean=np.where(is_new, initial_value, state["mean"].values),
+                    old_wt=np.where(is_new, 1.0, state["old_wt"].values),
+                    nobs=np.where(is_new, 0, state["nobs"].values).astype(np.int64),
                 )
 
             res, state = ewma(
@@ -272,7 +274,7 @@ class WaxNumbaEWMAccessor:
         self._obj = pandas_obj
 
     def ewm(self, *args, **kwargs):
-        return NumbaExponentialMovingWindow(accessor=self, *args, **kwargs)
+        return NumbaExponentialMovingWindow(self, *args, **kwargs)
 
 
 def register_wax_numba():
-- 
2.43.0


From 5f13d3640095dc0d01bc0b7f2459795665075019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:54 +0000
Subject: [PATCH 50/50] fix: gradients through missing values are finite
 (variance, covariance, relative change, linear adjustment, normalisation)

---
 src/wax/flax/modules/ewma.py           |  4 +++-
 src/wax/flax/modules/ewmcov.py         |  6 +++---
 src/wax/flax/modules/ewmvar.py         | 10 +++++++---
 src/wax/flax/modules/mask_normalize.py |  5 ++++-
 src/wax/flax/modules/pct_change.py     |  4 ++--
 src/wax/modules/ewma.py                |  2 +-
 src/wax/modules/ewmcov.py              |  6 +++---
 src/wax/modules/ewmvar.py              | 10 +++++++---
 src/wax/modules/mask_normalize.py      |  7 ++++++-
 src/wax/modules/pct_change.py          |  4 ++--
 src/wax/utils.py                       | 12 ++++++++++++
 11 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index b800cd5..c1d1bc9 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -108,7 +108,9 @@ class EWMA(nn.Module):
         if self.adjust == "linear":
             # Linear adjustment for effective com
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / current_old_wt)
+                is_observation,
+                1.0,
+                jnp.maximum(current_old_wt - 1.0, 0.0) / jnp.maximum(current_old_wt, 1.0),
             )
             updated_old_wt = jnp.minimum(current_old_wt, com)
         else:
diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index ab3c8c3..23883cc 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -18,7 +18,7 @@ import warnings
 import flax.linen as nn
 import jax.numpy as jnp
 
-from ...utils import as_float
+from ...utils import as_float, nan_safe
 from .ewma import EWMA
 
 
@@ -98,7 +98,7 @@ class EWMCov(nn.Module):
         y = as_float(jnp.asarray(y))
 
         # Compute outer product for XY term
-        xy = jnp.outer(x, y)
+        xy = nan_safe(jnp.multiply, jnp.ravel(x)[:, None], jnp.ravel(y)[None, :])
 
         # Compute exponentially weighted mean of XY
         mean_xy = self.mean_xy(xy)
@@ -112,7 +112,7 @@ class EWMCov(nn.Module):
             mean_y = self.mean_y(y)
 
             # Compute covariance: E[XY] - E[X]E[Y]
-            mean_x_mean_y = jnp.outer(mean_x, mean_y)
+            mean_x_mean_y = nan_safe(jnp.multiply, jnp.ravel(mean_x)[:, None], jnp.ravel(mean_y)[None, :])
             covariance = mean_xy - mean_x_mean_y
 
             return jnp.array(covariance)
diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 6ad80e6..0029b48 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -92,16 +92,20 @@ class EWMVar(nn.Module):
         updated_nobs = jnp.where(mask, current_nobs + 1, current_nobs)
 
         # Alpha adjustment scheme
+        # before the first observation, alpha does not matter but should be finite,
+        # to avoid nans in gradient computations
+        count = jnp.maximum(updated_nobs, 1.0)
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(updated_nobs < tscale, updated_nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # Exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** updated_nobs)
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
         # Incremental variance update using Finch's formula
-        diff = x - updated_mean
+        # missing values do not contribute (also to the gradients)
+        diff = jnp.where(mask, x - updated_mean, 0.0)
         incr = alpha * diff
 
         # Update state
diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index 676dc46..bb22304 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -57,7 +57,10 @@ class MaskNormalize(nn.Module):
             if self.axis is not None:
                 # Keep the reduced axis to align the scale with the data
                 x_std = jnp.expand_dims(x_std, self.axis)
-            x_normalized = x / x_std
+            # entries without a finite quotient are replaced before the division,
+            # to avoid nans in gradient computations
+            finite = jnp.isfinite(x / x_std)
+            x_normalized = jnp.where(finite, x, 0.0) / jnp.where(finite, x_std, 1.0)
 
             # Handle NaN and infinity values that may result from division
             x_normalized = self.fill_nan_inf(x_normalized)
diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index ed3b6bc..cd72e98 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -16,7 +16,7 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
-from ...utils import as_float
+from ...utils import as_float, nan_safe
 from .ffill import Ffill
 from .lag import Lag
 
@@ -62,7 +62,7 @@ class PctChange(nn.Module):
             previous_x = self.lag(x)
 
         # Compute percentage change: (current / previous) - 1.0
-        pct_change = x / previous_x - 1.0
+        pct_change = nan_safe(jnp.divide, x, previous_x) - 1.0
 
         # Handle special case: if current is NaN but previous is valid,
         # return 0.0 (pandas-compatible behavior when fillna_zero=True)
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 3abd759..bbb0234 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -159,7 +159,7 @@ class EWMA(hk.Module):
             # com_eff grow linearly when there is observation but
             # decrease linearly when there is nans.
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / old_wt)
+                is_observation, 1.0, jnp.maximum(old_wt - 1.0, 0.0) / jnp.maximum(old_wt, 1.0)
             )
             old_wt = jnp.minimum(old_wt, com)
         else:
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index fb39310..ed767fb 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -17,7 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.ewma import EWMA
-from wax.utils import as_float
+from wax.utils import as_float, nan_safe
 
 
 class EWMCov(hk.Module):
@@ -130,7 +130,7 @@ class EWMCov(hk.Module):
             ignore_na=self.ignore_na,
             initial_value=self.initial_value,
             name="mean_xy",
-        )(jnp.outer(x, y))
+        )(nan_safe(jnp.multiply, jnp.ravel(x)[:, None], jnp.ravel(y)[None, :]))
         if self.assume_centered:
             cov = mean_xy
         else:
@@ -150,5 +150,5 @@ class EWMCov(hk.Module):
                 initial_value=self.initial_value,
                 name="mean_y",
             )(y)
-            cov = mean_xy - jnp.outer(mean_x, mean_y)
+            cov = mean_xy - nan_safe(jnp.multiply, jnp.ravel(mean_x)[:, None], jnp.ravel(mean_y)[None, :])
         return cov
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index 94a6797..79c54f8 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -109,15 +109,19 @@ class EWMVar(hk.Module):
         nobs = jnp.where(mask, nobs + 1, nobs)
 
         # alpha adjustement scheme
+        # before the first observation, alpha does not matter but should be finite,
+        # to avoid nans in gradient computations
+        count = jnp.maximum(nobs, 1.0)
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(nobs < tscale, nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** (nobs))
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
-        diff = x - mean
+        # missing values do not contribute (also to the gradients)
+        diff = jnp.where(mask, x - mean, 0.0)
         incr = alpha * diff
 
         # update state
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index 0a0b9b5..13d5095 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -49,7 +49,12 @@ class MaskNormalize(hk.Module):
             if self.axis is not None:
                 # keep the reduced axis to align the scale with the data
                 x_std = jnp.expand_dims(x_std, self.axis)
-            x_normalized = FillNanInf()(x / x_std)
+            # entries without a finite quotient are replaced before the division,
+            # to avoid nans in gradient computations
+            finite = jnp.isfinite(x / x_std)
+            x_normalized = FillNanInf()(
+                jnp.where(finite, x, 0.0) / jnp.where(finite, x_std, 1.0)
+            )
             return x_normalized
 
         return tree_map(normalize, input)
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 6693668..595e7b9 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -17,7 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules import Ffill, Lag
-from wax.utils import as_float
+from wax.utils import as_float, nan_safe
 
 
 class PctChange(hk.Module):
@@ -57,7 +57,7 @@ class PctChange(hk.Module):
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
             previous_x = Lag(self.periods)(x)
-        pct_change = x / previous_x - 1.0
+        pct_change = nan_safe(jnp.divide, x, previous_x) - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
         return pct_change
diff --git a/src/wax/utils.py b/src/wax/utils.py
index 4ab5d40..2e5bcc8 100644
--- a/src/wax/utils.py
+++ b/src/wax/utils.py
@@ -22,6 +22,18 @@ def as_float(x):
     return jnp.asarray(x, dtype=jnp.result_type(x, float))
 
 
+def nan_safe(fun, x, y):
+    """Apply an elementwise operation on values which are not missing.
+
+    The result is missing where ``x`` or ``y`` is. In contrast to ``fun(x, y)``, gradients
+    are not NaN when there are missing values.
+    """
+    missing = jnp.isnan(x) | jnp.isnan(y)
+    x = jnp.where(missing, 1.0, x)
+    y = jnp.where(missing, 1.0, y)
+    return jnp.where(missing, jnp.nan, fun(x, y))
+
+
 def dict_map(fun, col):
     return {key: fun(val) for key, val in col.items()}
 
-- 
2.43.0

