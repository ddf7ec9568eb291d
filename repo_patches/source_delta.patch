From f972ffe0b67528c86c8e4529aafb8dd2d69b62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 01/69] fix: ABY3 public+public addition runs on the servers
 that hold the values

The sums were built outside any device scope, so with distinct server devices the
result failed the placement assertion of ABY3PublicTensor.
---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..1c28e81 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2225,7 +2225,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From 7a6f992e277ff235947acb431df1a7eb10312476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 02/69] fix: ABY3 local truncation places the received shares
 on their receiver

With distinct server devices the result failed the share placement assertion.
---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1c28e81..d536cff 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2749,7 +2749,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2757,7 +2757,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
-- 
2.43.0


From 1d7c2cf3377199033b68373601d098be7a6d788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 03/69] fix: ABY3 cheetah truncation places the received shares
 on their receiver

With distinct server devices the result failed the share placement assertion.
---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d536cff..8f116c9 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2826,8 +2826,8 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
@@ -2843,7 +2843,7 @@ def _truncate_msb0_cheetah_private(
         z[1][1] = x_bob_on_1_trunc - error[1][1]
     with tf.device(prot.servers[2].device_name):
         z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From 07c9708a2400f59082ded924dc531c9c1c5c452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 04/69] fix: ABY3 cheetah truncation advances the pairwise
 nonces it used

The oblivious transfer masks were generated from the same (key, nonce) pairs as
the zero sharing of the following conversion.
---
 tf_encrypted/protocol/aby3/aby3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 8f116c9..ab126ad 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2829,6 +2829,8 @@ def _truncate_msb0_cheetah_private(
         w[2][0] = w[1][1].identity()
         w[2][1] = w_alice.identity()
 
+    prot._update_pairwise_nonces()
+
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
-- 
2.43.0


From 0846147720112686f0c076a527e37a5596c08205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 05/69] fix: ABY3 public zeros/ones construct the public tensor
 correctly

ABY3PublicTensor takes no share type; zeros, pad of a public tensor and extraction
of bit 0 raised TypeError.
---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index ab126ad..83d5cdc 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5390,7 +5390,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5431,7 +5431,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 3b645537124c764ba84c73dd0e5eaa8a8d9f2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 06/69] fix: ABY3 products mask every element of a broadcast
 result

The zero sharing had the shape of the first operand, so when the second operand
has more elements one mask was reused for several messages and the difference of
two re-shared terms was sent in the clear.
---
 tf_encrypted/protocol/aby3/aby3.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 83d5cdc..ad852eb 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2450,7 +2450,10 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        # every element of the (broadcast) result needs a mask of its own
+        a0, a1, a2 = prot._gen_zero_sharing(
+            tf.broadcast_static_shape(x.shape, y.shape)
+        )
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2506,7 +2509,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2518,7 +2521,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2626,7 +2629,9 @@ def _matmul_private_private(prot, x, y):
 
     # Tensorflow supports matmul for more than 2 dimensions,
     # with the inner-most 2 dimensions specifying the 2-D matrix multiplication
-    result_shape = tf.TensorShape((*x.shape[:-1], y.shape[-1]))
+    # (the outer dimensions broadcast).
+    result_shape = tf.broadcast_static_shape(x.shape[:-2], y.shape[:-2])
+    result_shape = result_shape.concatenate([x.shape[-2], y.shape[-1]])
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("matmul"):
@@ -3133,8 +3138,11 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
+        # every element of the (broadcast) result needs a mask of its own
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            tf.broadcast_static_shape(x.shape, y.shape),
+            share_type=ShareType.BOOLEAN,
+            factory=x.backing_dtype,
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From 9ca25e09df096972f2a71de825b452311c73ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:11 +0000
Subject: [PATCH 07/69] fix: ABY3 prefix adder keeps exactly n_bits result bits
 on 128-bit shares

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index ad852eb..bb0d350 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3539,9 +3539,7 @@ def _ppa_kogge_stone_private_private(prot, x, y, n_bits):
         z = C ^ P
 
         if k < x.backing_dtype.nbits:
-            mask = prot.define_constant(
-                np.array((1 << k) - 1).astype(np.int64), apply_scaling=False
-            )
+            mask = prot.define_constant((1 << k) - 1, apply_scaling=False)
             z = z & mask
     return z
 
-- 
2.43.0


From 5d51a2dc601d94cf9899bccc0280a5c3f775ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:43 +0000
Subject: [PATCH 08/69] fix: ABY3 cheetah truncation masks the truncated share
 it sends to the third server

---
 tf_encrypted/protocol/aby3/aby3.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index bb0d350..23b194d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2793,8 +2793,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2841,15 +2839,22 @@ def _truncate_msb0_cheetah_private(
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # Every server knows two shares of the error, so the shares sent below
+    # must be masked to not disclose the truncated share of x.
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = x_alice_trunc - error[0][0] + a0
+    with tf.device(prot.servers[1].device_name):
+        z[1][0] = a1 - error[1][0]
+    with tf.device(prot.servers[2].device_name):
+        z[2][0] = x_bob_on_2_trunc - error[2][0] + a2
+
+    with tf.device(prot.servers[0].device_name):
+        z[0][1] = z[1][0].identity()
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][1] = z[2][0].identity()
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
         z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
-- 
2.43.0


From 0fed1e77b9b33daaaad97192c9de49e559ed7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:32 +0000
Subject: [PATCH 09/69] fix: ABY3 network reduce_max over all elements returns
 the maximum

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 23b194d..d04962d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5094,10 +5094,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From 0d6bfea0914377c90eebbf8ace65fff77d69c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 10/69] fix: Pond private-public matmul computes the second
 share on server 1

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..868b17f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3149,7 +3149,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
-- 
2.43.0


From a6765f6141c24d3dac420bd9a8523c213de815de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 11/69] fix: Pond public equality computes the second copy on
 server 1

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 868b17f..f91e103 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4472,7 +4472,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From ac893ce5ef088b0593e97eb548bbea0ff427d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 12/69] fix: Pond squeeze of masked tensors passes on the mask
 and the axis

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index f91e103..611b19b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4427,11 +4427,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4443,7 +4443,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From 4613e52991385b947f14c5c1391fd1c8d2ef3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 13/69] fix: Pond division by a float

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 611b19b..2878620 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1042,7 +1042,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From ef6a469b5f000ec7bbbb7ab037baf933d8154aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 14/69] fix: Pond average pooling no longer uses the removed
 tf.Dimension

---
 tf_encrypted/protocol/pond/pond.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 2878620..0abd2f3 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3371,8 +3371,7 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height, pool_width = pool_size
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From 84f221c20abc862f6c0d056df36e5310a6571023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 15/69] fix: Pond padding keeps the encoding of the padded
 tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 0abd2f3..75360bb 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1495,7 +1495,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From 56bb1555309f43d7de4e7b4c8e0ec626142b4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 16/69] fix: Pond caches layout results per argument, not per
 tensor only

---
 tf_encrypted/protocol/pond/pond.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 75360bb..be6e968 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,6 +47,7 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import make_hashable
 from ..protocol import memoize
 from ..protocol import nodes
 from .triple_sources import BaseTripleSource
@@ -1080,7 +1081,7 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
+        node_key = ("transpose", x, make_hashable(perm))
         x_t = nodes.get(node_key, None)
 
         if x_t is not None:
@@ -1172,7 +1173,7 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
+        node_key = ("strided_slice", x, make_hashable(args), make_hashable(kwargs))
 
         x_sliced = nodes.get(node_key, None)
 
@@ -1185,7 +1186,6 @@ class Pond(Protocol):
             x_sliced = _strided_slice_private(self, x, args, kwargs)
         elif isinstance(x, PondMaskedTensor):
             x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
         else:
             raise TypeError(
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
@@ -1208,7 +1208,7 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
+        node_key = ("stack", tuple(xs), axis)
         xs_stack = nodes.get(node_key, None)
 
         if xs_stack is not None:
@@ -1379,7 +1379,7 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
+        node_key = ("conv2d", x, w, make_hashable(strides), padding)
         z = nodes.get(node_key, None)
 
         if z is not None:
@@ -3717,7 +3717,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
-- 
2.43.0


From 9eb1444802f5a88f83aab3c8fc70ae2c7aa56b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 17/69] fix: Pond local computation with masked outputs
 produces a consistent mask and keeps the output from the triple producer

---
 tf_encrypted/protocol/pond/pond.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index be6e968..da6a0d7 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -557,8 +557,10 @@ class Pond(Protocol):
                 with tf.device(self.triple_source.producer.device_name):
                     seed0 = crypto.secure_seed()
                     seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
+                    a = factory.sample_seeded_uniform(
+                        v.shape, seed0
+                    ) + factory.sample_seeded_uniform(v.shape, seed1)
+                with tf.device(player.device_name):
                     alpha = w - a
                 with tf.device(self.server_0.device_name):
                     a0 = factory.sample_seeded_uniform(v.shape, seed0)
-- 
2.43.0


From 6f74b7f972f18dafaf6f73fd2dee929edaa6ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 18/69] fix: Pond tensors accept a plain number on the left of
 +

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index da6a0d7..8980ff7 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1699,7 +1699,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(other, self)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From f88e5857324250918d195be301056ee091501e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 19/69] fix: reading a Pond masked variable returns its mask
 and its unmasked value

---
 tf_encrypted/protocol/pond/pond.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 8980ff7..2eeafec 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -2240,7 +2240,7 @@ class PondMaskedVariable(PondMaskedTensor, TFEPrivateVariable):
             alpha_on_1,
             is_scaled,
         )
-        self.var_a = a1
+        self.var_a = a
         self.var_a0 = a0
         self.var_a1 = a1
         self.var_alpha_on_0 = alpha_on_0
@@ -2259,7 +2259,14 @@ class PondMaskedVariable(PondMaskedTensor, TFEPrivateVariable):
             a1 = self.var_a1.read_value()
             alpha_on_1 = self.var_alpha_on_1.read_value()
         y = PondMaskedTensor(
-            self.prot, a, a0, a1, alpha_on_0, alpha_on_1, self.is_scaled
+            self.prot,
+            self.unmasked.read_value(),
+            a,
+            a0,
+            a1,
+            alpha_on_0,
+            alpha_on_1,
+            self.is_scaled,
         )
         return y
 
-- 
2.43.0


From f9c2f8bf15b2baf92e081b02427fa9d2160742d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 20/69] fix: Pond encodes native tensors without an explicit
 integer type

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 2eeafec..fd902e2 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -748,8 +748,8 @@ class Pond(Protocol):
                 integers = np.array(scaled).astype(np.int64)
             elif isinstance(rationals, tf.Tensor):
                 tf_int_type = tf_int_type or (
-                    scaled.dtype
-                    if scaled.dtype in TF_INT_TYPES
+                    rationals.dtype
+                    if rationals.dtype in TF_INT_TYPES
                     else self.tensor_factory.native_type
                 )
                 assert tf_int_type in TF_INT_TYPES
-- 
2.43.0


From 009707eb6f5781c102d9cd77014e2a3f02f4ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 21/69] fix: results cached by one protocol are not returned to
 another

---
 tf_encrypted/protocol/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..6ab3fc7 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -108,7 +108,7 @@ def memoize(func: Callable) -> Callable:
 
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        node_key = (self, func.__name__, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
         if cached_result is not None:
-- 
2.43.0


From 425ce803977446ca0af98ac50423385b38de83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 22/69] fix: array arguments are cached by their contents

---
 tf_encrypted/protocol/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 6ab3fc7..f98b916 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -81,6 +82,9 @@ def make_hashable(x):
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, np.ndarray) and not x.dtype.hasobject:
+        # the array itself is not kept alive, so its id may be used again
+        return ("ndarray", x.shape, x.dtype.str, x.tobytes())
     else:
         try:
             hash(x)
-- 
2.43.0


From d000c06561db5c125b84619325e1ffd9e44b4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 23/69] fix: ABY3 public tensors can be multiplied and divided
 by powers of two

---
 tf_encrypted/protocol/aby3/aby3.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d04962d..25bf3f0 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2697,6 +2697,11 @@ def _truncate_heuristic_private(
     return z
 
 
+def _truncate_heuristic_public(prot, x, amount):
+    # a public value is truncated exactly by every method
+    return _truncate_local_public(prot, x, amount)
+
+
 def _truncate_local_public(prot, x, amount):
     assert isinstance(x, ABY3PublicTensor)
 
@@ -3261,6 +3266,25 @@ def _not_private(prot, x):
     return z
 
 
+def _lshift_public(prot, x, steps):
+    """
+    Left shift.
+    """
+    assert isinstance(x, ABY3PublicTensor), type(x)
+
+    x_ = x.unwrapped
+
+    z = [None, None, None]
+    with tf.name_scope("lshift"):
+        for i in range(3):
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_[i] << steps
+
+        z = ABY3PublicTensor(prot, z, x.is_scaled)
+
+    return z
+
+
 def _lshift_private(prot, x, steps):
     """
     Left shift.
-- 
2.43.0


From 5f557cdfa0acaa9662f01b14421b2316cd9ea8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 24/69] fix: cached results are kept per graph, so compiled
 functions do not receive each other's tensors

---
 tf_encrypted/protocol/protocol.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index f98b916..72e12ce 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -14,7 +14,29 @@ import tf_encrypted as tfe
 from ..config import get_config
 from ..tensor.factory import AbstractTensor
 
-nodes = dict()
+
+
+class NodeCache:
+    """
+    Results of operations, kept separately for every graph under construction
+    since the tensors of one graph cannot be used in another.
+    """
+
+    def __init__(self):
+        self._nodes = dict()
+
+    def _current(self):
+        graph = None if tf.executing_eagerly() else tf.compat.v1.get_default_graph()
+        return self._nodes.setdefault(graph, dict())
+
+    def get(self, key, default=None):
+        return self._current().get(key, default)
+
+    def __setitem__(self, key, value):
+        self._current()[key] = value
+
+
+nodes = NodeCache()
 
 
 class Protocol(ABC):
-- 
2.43.0


From 0f974459e2b35c4b48ad94adc7b1ac8798792d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 25/69] fix: native factory zeros() gives zeros

---
 tf_encrypted/tensor/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..7950019 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,7 +221,7 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
             return Tensor(tf.pad(tensor.value), paddings)
-- 
2.43.0


From 3167ac8f6f62380ac48c4bfa63cb1f5219eae829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 26/69] fix: factory pad() pads instead of raising

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..34a6946 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 7950019..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -224,7 +224,7 @@ def native_factory(
             return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From 6ce43b3408a4576cad3b9b3621a6d538c7884680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 27/69] fix: patches2im uses the row and column strides and the
 image width where they belong

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From 548cca1c3c96c1b65a8a5bf552afad241d097f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:03 +0000
Subject: [PATCH 28/69] fix: int128 tensors count negative axes from the end of
 their own shape

---
 tf_encrypted/tensor/int128.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 34a6946..975bf1c 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -244,18 +244,13 @@ def int128_factory():  # pylint: disable=invalid-name
 
     def _lift_axis(axis, dims):
         if isinstance(axis, (list, tuple)):
-            new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
+            return [_lift_axis(a, dims) for a in axis]
         if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+            assert (
+                -dims <= axis < dims
+            ), "# dimensions: {}, got axis: {}".format(dims, axis)
+            # count from the end of the composed shape, not of the native one
+            axis = axis + dims if axis < 0 else axis
         return axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
-- 
2.43.0


From 489f551b91aaf4eb19fde95e773d295d4a67e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:03 +0000
Subject: [PATCH 29/69] fix: indexing an int128 tensor with an ellipsis keeps
 whole elements

---
 tf_encrypted/tensor/int128.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 975bf1c..aa865c4 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -339,6 +339,9 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            if isinstance(slc, tuple) and any(s is Ellipsis for s in slc):
+                # keep both native elements of each composed element
+                slc = slc + (slice(None),)
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From a21f2c0d91887b1352d3dc91792143a4b27ccd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:30 +0000
Subject: [PATCH 30/69] fix: int128 bits() gives the bits of the element

---
 tf_encrypted/tensor/int128.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index aa865c4..274819e 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -289,9 +289,9 @@ def int128_factory():  # pylint: disable=invalid-name
             else:
                 t0 = tf.gather(self.value, 0, axis=-1)
                 t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+                t0 = binarize(t0, 64)
+                t1 = binarize(t1, bitsize - 64)
+                return factory.tensor(tf.concat([t0, t1], axis=-1))
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From 57cd0259446f0bb327799ef688a78330a001a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:30 +0000
Subject: [PATCH 31/69] fix: int128 equality returns a tensor of the requested
 factory

---
 tf_encrypted/tensor/int128.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 274819e..d4e36f8 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -490,9 +490,10 @@ def int128_factory():  # pylint: disable=invalid-name
             value = tf_i128.reduce_sum(self.value, axis, keepdims)
             return Tensor(value)
 
-        def equal(self, other):
+        def equal(self, other, factory=None):
             x, y = _lift(self, other)
-            return tf_i128.equal(x.value, y.value)
+            factory = factory or FACTORY
+            return factory.tensor(tf_i128.equal(x.value, y.value))
 
         def truncate(self, amount, base=2):
             if base == 2:
-- 
2.43.0


From c127c5d261d96ac8ad23aaea9030b7c006025525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 32/69] fix: assigning to a boolean or CRT variable does not
 raise after assigning

---
 tf_encrypted/tensor/boolfactory.py | 4 ++--
 tf_encrypted/tensor/int100.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..e30481c 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -290,9 +290,9 @@ def bool_factory():
 
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
-                self.variable.assign(value.value)
+                return self.variable.assign(value.value)
             if isinstance(value, np.ndarray):
-                self.variable.assign(value)
+                return self.variable.assign(value)
 
             raise TypeError("Don't know how to handle {}".format(type(value)))
 
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..ce04ebf 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,11 +814,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             backing = [var.read_value() for var in self.variables]
-- 
2.43.0


From 6aa4773e1e2c76584ef2a588ea085ebf3ead7e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 33/69] fix: native seeded fallback sampling returns a plain
 tensor

---
 tf_encrypted/tensor/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index cc97af9..801c062 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -168,7 +168,7 @@ def native_factory(
                     value = tf.random.stateless_uniform(
                         shape, seed, minval=minval, maxval=maxval, dtype=tf.int32
                     )
-                    value = Tensor(tf.cast(value, NATIVE_TYPE))
+                    value = tf.cast(value, NATIVE_TYPE)
                 else:
                     value = tf.random.stateless_uniform(
                         shape,
-- 
2.43.0


From 6d4ec68dfcc52c2ae1a9ee19f27879e4e596d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:10 +0000
Subject: [PATCH 34/69] fix: seeded CRT masks are uniform in every component

---
 tf_encrypted/tensor/int100.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index ce04ebf..85a90f9 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -236,28 +236,29 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             assert maxval is None
 
             if secure_random.supports_seeded_randomness():
-                shape = list(shape) + [len(MODULI)]
-                value = secure_random.seeded_random_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
-                )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                # every component needs its own range and its own stream
+                backing = [
+                    secure_random.seeded_random_uniform(
+                        shape=shape,
+                        dtype=INT_TYPE,
+                        minval=0,
+                        maxval=mi,
+                        seed=seed + i,
+                    )
+                    for i, mi in enumerate(MODULI)
+                ]
                 return Tensor(backing)
             else:
-                shape = list(shape) + [len(MODULI)]
-                value = tf.random.stateless_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
-                )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                backing = [
+                    tf.random.stateless_uniform(
+                        shape=shape,
+                        dtype=INT_TYPE,
+                        minval=0,
+                        maxval=mi,
+                        seed=seed + i,
+                    )
+                    for i, mi in enumerate(MODULI)
+                ]
                 return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
-- 
2.43.0


From 9fed2090f83aa40a25247535f3393329feafe265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 35/69] fix: int8 and int16 masks reach every element of the
 ring

---
 tf_encrypted/tensor/native.py | 60 +++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 801c062..b0fd29d 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -33,6 +33,12 @@ def native_factory(
 ):  # pylint: disable=invalid-name
     """Constructs the native tensor Factory."""
 
+    # samplers take an exclusive upper bound, which for the narrow types
+    # only a wider type can hold
+    # pylint: disable=invalid-name
+    SAMPLE_TYPE = NATIVE_TYPE if NATIVE_TYPE in (tf.int32, tf.int64) else tf.int32
+    # pylint: enable=invalid-name
+
     class Factory(AbstractFactory):
         """Native tensor factory."""
 
@@ -104,31 +110,38 @@ def native_factory(
         def nbits(self):
             return NATIVE_TYPE.size * 8
 
+        @property
+        def _sample_bound(self):
+            # TODO(Morten) believe this should be native_type.max+1
+            # (only the narrow types can be sampled in a type that holds it)
+            if EXPLICIT_MODULUS is None and SAMPLE_TYPE != NATIVE_TYPE:
+                return NATIVE_TYPE.max + 1
+            return self.max
+
         def sample_uniform(
             self, shape, minval: Optional[int] = None, maxval: Optional[int] = None
         ):
             minval = self.min if minval is None else minval
-            # TODO(Morten) believe this should be native_type.max+1
-            maxval = self.max if maxval is None else maxval
+            maxval = self._sample_bound if maxval is None else maxval
 
             if secure_random.supports_seeded_randomness():
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
-                    dtype=NATIVE_TYPE,
+                    dtype=SAMPLE_TYPE,
                     minval=minval,
                     maxval=maxval,
                     seed=secure_random.secure_seed(),
                 )
-                return Tensor(value)
+                return Tensor(tf.cast(value, NATIVE_TYPE))
 
             if secure_random.supports_secure_randomness():
                 sampler = secure_random.random_uniform
             else:
                 sampler = tf.random.uniform
             value = sampler(
-                shape=shape, minval=minval, maxval=maxval, dtype=NATIVE_TYPE
+                shape=shape, minval=minval, maxval=maxval, dtype=SAMPLE_TYPE
             )
-            return Tensor(value)
+            return Tensor(tf.cast(value, NATIVE_TYPE))
 
         def sample_seeded_uniform(
             self,
@@ -149,7 +162,7 @@ def native_factory(
             the interval [minval,maxval].
             """
             minval = self.min if minval is None else minval
-            maxval = self.max if maxval is None else maxval
+            maxval = self._sample_bound if maxval is None else maxval
 
             if secure_random.supports_seeded_randomness():
                 # Don't use lazy sampling here, because the `seed`
@@ -157,27 +170,20 @@ def native_factory(
                 # send it to another party
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
-                    dtype=NATIVE_TYPE,
+                    dtype=SAMPLE_TYPE,
                     minval=minval,
                     maxval=maxval,
                     seed=seed,
                 )
-                return Tensor(value)
             else:
-                if NATIVE_TYPE not in (tf.int32, tf.int64):
-                    value = tf.random.stateless_uniform(
-                        shape, seed, minval=minval, maxval=maxval, dtype=tf.int32
-                    )
-                    value = tf.cast(value, NATIVE_TYPE)
-                else:
-                    value = tf.random.stateless_uniform(
-                        shape,
-                        seed,
-                        minval=minval,
-                        maxval=maxval,
-                        dtype=NATIVE_TYPE,
-                    )
-                return Tensor(value)
+                value = tf.random.stateless_uniform(
+                    shape,
+                    seed,
+                    minval=minval,
+                    maxval=maxval,
+                    dtype=SAMPLE_TYPE,
+                )
+            return Tensor(tf.cast(value, NATIVE_TYPE))
 
         def sample_bounded(self, shape, bitlength: int):
             maxval = 2**bitlength
@@ -186,19 +192,19 @@ def native_factory(
             if secure_random.supports_seeded_randomness():
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
-                    dtype=NATIVE_TYPE,
+                    dtype=SAMPLE_TYPE,
                     minval=0,
                     maxval=maxval,
                     seed=secure_random.secure_seed(),
                 )
-                return Tensor(value)
+                return Tensor(tf.cast(value, NATIVE_TYPE))
 
             if secure_random.supports_secure_randomness():
                 sampler = secure_random.random_uniform
             else:
                 sampler = tf.random.uniform
-            value = sampler(shape=shape, minval=0, maxval=maxval, dtype=NATIVE_TYPE)
-            return Tensor(value)
+            value = sampler(shape=shape, minval=0, maxval=maxval, dtype=SAMPLE_TYPE)
+            return Tensor(tf.cast(value, NATIVE_TYPE))
 
         def sample_bits(self, shape):
             return self.sample_bounded(shape, bitlength=1)
-- 
2.43.0


From 78e6127167aa1f0b7b9b6e3d2711edda33f63966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:17 +0000
Subject: [PATCH 36/69] fix: integer tensors convert to int128 exactly

---
 tf_encrypted/tensor/int128.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index d4e36f8..9f05d04 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -61,6 +61,11 @@ def int128_factory():  # pylint: disable=invalid-name
                 encode_value = tf_i128.encode(scaled_value)
                 return tf.convert_to_tensor(encode_value, dtype=self.native_type)
             elif isinstance(scaled_value, tf.Tensor):
+                if scaled_value.dtype.is_integer:
+                    # sign extension; going through floats would round
+                    lo = tf.cast(scaled_value, self.native_type)
+                    hi = tf.bitwise.right_shift(lo, 63)
+                    return tf.stack([lo, hi], axis=-1)
                 return tf_i128.to_i128(scaled_value)
             else:
                 raise TypeError(
-- 
2.43.0


From 157843bb20a6baaeb94105c86e6b216c7b13dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 37/69] fix: ABY3 local computations accept public arguments

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 25bf3f0..3f39365 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,7 +605,7 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 6a64dc5da1800ec9bdf969c6af82d11c1e05aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 38/69] fix: ABY3 local computations reconstruct arguments by
 their own share type

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3f39365..184d19d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -611,7 +611,7 @@ class ABY3(Protocol):
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 26e59e0f833e1491dfeb7c14fa5a7709d038e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 39/69] fix: ABY3 public inputs are placed on the three servers

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 184d19d..68353be 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            ws = [None, None, None]
+            for i in range(3):
+                with tf.device(self.servers[i].device_name):
+                    ws[i] = w.identity()
+            return ABY3PublicTensor(self, ws, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From e30a40a7eb2dfcba902e3bef22a4e0bdcda50423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:25 +0000
Subject: [PATCH 40/69] fix: ABY3 encodes narrow integer arrays without
 wrapping around

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 68353be..c2a7f98 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -806,8 +806,8 @@ class ABY3(Protocol):
 
             if isinstance(rationals, np.ndarray):
                 if apply_scaling:
-                    scaled = rationals * self.fixedpoint_config.scaling_factor
-                    scaled = np.array(scaled).astype(np.float64)
+                    scaled = rationals.astype(np.float64)
+                    scaled = scaled * self.fixedpoint_config.scaling_factor
                 else:
                     scaled = rationals
 
-- 
2.43.0


From 07de7e1520ef69e856fbeb22dd2f5bf9c738f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:25 +0000
Subject: [PATCH 41/69] fix: reading 128-bit shares leaves the caller's shape
 unchanged

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index c2a7f98..229de27 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -4787,7 +4787,7 @@ def _read_(prot, filenames_prefix, file_batch, output_shape, buffer_num):
         filenames_prefix = [filenames_prefix]
 
     if prot.default_nbits == 128:
-        output_shape.append(2)
+        output_shape = list(output_shape) + [2]
 
     def decode(str_tensor):
         return tf.io.parse_tensor(str_tensor, out_type=tf.int64)
-- 
2.43.0


From 0914244f3251f852029b66bf962fb0e7584218d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 42/69] fix: setting a layer's weights leaves the caller's list
 unchanged

---
 tf_encrypted/keras/engine/base_layer.py    | 1 +
 tf_encrypted/keras/layers/convolutional.py | 1 +
 tf_encrypted/keras/layers/normalization.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..69bf725 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -130,6 +130,7 @@ class Layer(ABC):
         """
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..b3cdc14 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -610,6 +610,7 @@ class DepthwiseConv2D(Conv2D):
 
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         # Assign new keras weights to existing weights defined by
         # default when tfe layer was instantiated
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..48a144e 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -226,6 +226,7 @@ class BatchNormalization(Layer):
 
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
                 weights[index] = tfe.define_public_variable(weight)
-- 
2.43.0


From c814001ad999f6a897281bacbc8dfdce0b305d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 43/69] fix: convolution layers report the shape their output
 has

---
 tf_encrypted/keras/layers/convolutional.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index b3cdc14..ad873f0 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, _, _ = self.kernel_shape
+        n_filters = self.input_dim * self.depth_multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -577,12 +578,15 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From 511227902e61ccc3479154627ed7a30ece728bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 44/69] fix: Conv2D gradient covers rows and columns no window
 reaches

---
 tf_encrypted/keras/layers/convolutional.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index ad873f0..cc7858e 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -191,6 +191,13 @@ class Conv2D(Layer):
         return outputs
 
     def backward(self, d_y):
+        if self.strides[0] != self.strides[1]:
+            raise NotImplementedError(
+                "TF Encrypted currently only supports training with the same "
+                "stride along the height and the width. "
+                "You gave: {}".format(self.strides)
+            )
+
         x = self._layer_input
         y = self._layer_output
         kernel = self.weights[0].read_value()
@@ -243,6 +250,13 @@ class Conv2D(Layer):
                 x, [[0, 0], [0, 0], [pad_top, pad_bottom], [pad_left, pad_right]]
             )
 
+        # Rows and columns at the end that no window reaches do not affect the
+        # output: they have zero gradient and take no part in the kernel's
+        h_rest, w_rest = h_x - d_x.shape[2], w_x - d_x.shape[3]
+        if h_rest > 0 or w_rest > 0:
+            x = x[:, :, : (x.shape[2] - h_rest), : (x.shape[3] - w_rest)]
+            d_x = tfe.pad(d_x, [[0, 0], [0, 0], [0, h_rest], [0, w_rest]])
+
         if self.data_format != "channels_first":
             d_x = tfe.transpose(d_x, perm=[0, 2, 3, 1])
 
-- 
2.43.0


From 7c61be9f304fefa327d69b7e47dc42a0fb731baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 45/69] fix: batches of private tensors cover all their rows

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..c8c30d3 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -212,7 +212,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From 1dfb58243a37832d7f0495df51636e7118709c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 46/69] fix: every epoch of fit goes over all the data

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c8c30d3..15dff4e 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -109,12 +109,12 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
+            data_iter = data_wrap(x, y, batch_size)
             for index, (input_x, input_y) in enumerate(data_iter):
                 start = time.time()
                 current_loss = self.train_function(input_x, input_y)
-- 
2.43.0


From 5c5fe7326de0f00c08e7166aca726437446136c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 47/69] fix: batch_size None falls back to the documented 32

---
 tf_encrypted/keras/models/base_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 15dff4e..18e06a0 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -205,6 +205,8 @@ class BaseModel(Layer):
 
 
 def data_wrap(x, y=None, batch_size=32):
+    if batch_size is None:
+        batch_size = 32
     if isinstance(x, Iterator):
         return x
     elif isinstance(x, TFEPrivateTensor) and isinstance(y, TFEPrivateTensor):
-- 
2.43.0


From db2ebade8d8885bd16d6df6dc8d737462a290dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 48/69] fix: predict honours reveal on every call

---
 tf_encrypted/keras/models/base_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 18e06a0..b3c9f47 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -31,6 +31,7 @@ class BaseModel(Layer):
         self._optimizer = None
         self.train_function = None
         self.predict_function = None
+        self.predict_reveal = None
         self.test_function = None
 
     def __call__(self, inputs, *args, **kargs):
@@ -139,8 +140,9 @@ class BaseModel(Layer):
     def predict(self, x, batch_size=32, reveal=True):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
-        if self.predict_function is None:
+        if self.predict_function is None or self.predict_reveal != reveal:
             self.predict_function = self.make_predict_function(reveal)
+            self.predict_reveal = reveal
 
         for input_x in data_iter:
             y_pred = self.predict_function(input_x)
-- 
2.43.0


From 30988fbe5ae61a05b0b1d6ff345569d079c7c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 49/69] fix: a model keeps the name it is given

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index b3c9f47..808f3be 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -25,7 +25,7 @@ class BaseModel(Layer):
     """
 
     def __init__(self, name=None):
-        super(BaseModel, self).__init__(name)
+        super(BaseModel, self).__init__(name=name)
 
         self._loss = None
         self._optimizer = None
-- 
2.43.0


From 724d6716ea1255caa49f95ee0980bc77d8e4f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 50/69] fix: Flatten gradient undoes the channels_first
 transposition

---
 tf_encrypted/keras/layers/flatten.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..ab48f78 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -53,8 +53,17 @@ class Flatten(Layer):
         grad_weights = []
 
         input_shape = x.shape.as_list()
-
-        d_x = tfe.reshape(d_y, input_shape)
+        rank = len(input_shape)
+        if self.data_format == "channels_first" and rank > 1:
+            # undo the transposition of the forward pass
+            d_x = tfe.reshape(
+                d_y, [input_shape[0]] + input_shape[2:] + [input_shape[1]]
+            )
+            permutation = [0, rank - 1]
+            permutation.extend(i for i in range(1, rank - 1))
+            d_x = tfe.transpose(d_x, perm=permutation)
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From 7e6fa5eafaa71725ff6ad1775cb104d0d33dc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 51/69] fix: global pooling honours keepdims in both directions

---
 tf_encrypted/keras/layers/pooling.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..75a2532 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -371,13 +371,12 @@ class GlobalAveragePooling2D(GlobalPooling2D):
     def backward(self, d_y):
         x = self._layer_input
         if self.data_format == "channels_last":
-            h_x, w_x = (x.shape[1], x.shape[2])
+            batch, h_x, w_x, channels = x.shape
         else:
-            h_x, w_x = (x.shape[2], x.shape[3])
+            batch, channels, h_x, w_x = x.shape
 
         _d_y = d_y * self.scalar
-        if not self.keepdims:
-            _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+        _d_y = tfe.reshape(_d_y, [batch, channels, 1, 1])
 
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
@@ -424,7 +423,10 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         inputs = tfe.reshape(inputs, [batch, channels, -1])
 
         outputs, outputs_argmax = tfe.reduce_max_with_argmax(inputs, axis=2)
-
+        if self.keepdims:
+            outputs = tfe.reshape(
+                outputs, self.compute_output_shape(self._layer_input.shape)
+            )
         self._layer_output = (outputs, outputs_argmax)
 
         return outputs
@@ -438,7 +440,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         else:
             batch, channels, h_x, w_x = x.shape
 
-        _d_y = tfe.expand_dims(d_y, axis=2)
+        _d_y = tfe.reshape(d_y, [batch, channels, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x * w_x])
         d_x = d_x * y_arg
         d_x = tfe.reshape(d_x, [batch, channels, h_x, w_x])
-- 
2.43.0


From cd91eb164a243bf16438347213184e51fd02f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 52/69] fix: SecureNN relu on split tensors returns the relu,
 not its derivative

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..52a2cd5 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -384,7 +384,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 9a92c969f4c49082369a2210f0d7a655fcb8b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 53/69] fix: SecureNN maxpool2d passes both strides to im2col

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 52a2cd5..d03db93 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -812,11 +812,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
-- 
2.43.0


From 580008e2915e06db0babea2fd622d711063f3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 54/69] fix: SecureNN maxpool2d of a masked tensor uses its
 unmasked value

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index d03db93..4767dd1 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -861,7 +861,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From 863dc98050ceb547c9b48535304a527441fa8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 55/69] fix: SecureNN comparisons accept masked tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 4767dd1..33c30df 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -905,3 +905,8 @@ def _cast_backing_private(prot, x: PondPrivateTensor, backing_dtype):
             y1 = x1.cast(backing_dtype)
 
         return PondPrivateTensor(prot, y0, y1, x.is_scaled)
+
+
+def _cast_backing_masked(prot, x: PondMaskedTensor, backing_dtype):
+    """Cast a masked tensor's backing dtype."""
+    return prot.cast_backing(x.unmasked, backing_dtype)
-- 
2.43.0


From 0b9ae6e6092975c55c5909c49276fca4c9c3b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 56/69] fix: SecureNN sign of -1, which the cast to the odd
 ring identified with 0

---
 tf_encrypted/protocol/securenn/securenn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 33c30df..1864fa9 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -155,6 +155,13 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to take the most significant bit of
         """
         with tf.name_scope("msb"):
+            if self.odd_factory is not self.tensor_factory:
+                # the cast to the odd type identifies -1 with 0; shifting by one
+                # unit first keeps the sign of every value but the smallest
+                unit = self.define_constant(np.array(1), apply_scaling=False)
+                unit.is_scaled = x.is_scaled
+                x = x - unit
+
             # when the modulus is odd msb reduces to lsb via x -> 2*x
             x = self.cast_backing(x, self.odd_factory)
             return self.lsb(x + x)
-- 
2.43.0


From da2d123f705ab22af9e3676274d8ecfb29bc7d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 57/69] fix: SecureNN sign of public values, which was always 0
 with the int100 type

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 1864fa9..6c52165 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -155,6 +155,10 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to take the most significant bit of
         """
         with tf.name_scope("msb"):
+            if isinstance(x, PondPublicTensor):
+                # public bits are in two's complement for every backing type
+                return self.bits(x)[..., -1]
+
             if self.odd_factory is not self.tensor_factory:
                 # the cast to the odd type identifies -1 with 0; shifting by one
                 # unit first keeps the sign of every value but the smallest
-- 
2.43.0


From 492d5f6da5681d90c28f692062733ef27cc08954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:39 +0000
Subject: [PATCH 58/69] fix: reciprocal of values in the top octave of the
 supported range

The decomposed bits were moved back with an arithmetic shift, so values whose
top decomposed bit is set lost their exponent; and exp2 with as2019 (documented
for exponents down to -11) takes the reciprocal of values beyond 2^integral.
Decompose all bits whose exponents fit the 2k-bit precision in use.
---
 tf_encrypted/protocol/aby3/fp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index 633a7ae..71231f9 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -156,7 +156,7 @@ def _do_fp_log_private(prot, x: "TFEPrivateTensor", base: "float", precision: in
     adjust = 1.0 / np.log2(base)
     with tf.name_scope("fp_log"):
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
+        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
         y_bits = prefix_ORs(x_bits, m)
         z_bits = y_bits ^ (y_bits >> 1)
         rev_z_bits = prot.bit_reverse(z_bits)
@@ -200,11 +200,12 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
     where sgf \in [0.5, 1)
     """
     k = prot.fixedpoint_config.precision_fractional
-    m = k + prot.fixedpoint_config.precision_integral
+    # 2^{-j} is kept with 2k-bit precision, so all j in [0, 2k) can be represented.
+    m = 2 * k
     n = b.backing_dtype.nbits
     assert b.is_scaled, "Er.. tricky here."
     assert (
-        2 * k > m
+        m > k + prot.fixedpoint_config.precision_integral
     ), "We assume 2^{-j} can be represent with 2k-bit precisions for all j in [0, m)"
     with tf.name_scope("fp_normalize"):
         # juhou: sign.is_scaled is False
@@ -217,7 +218,7 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
             sign, x = 1, b
 
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
+        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
         """
            y_j = 1 <-> for all i <= j, y_i = 1.
            z_j = 1 <-> 2^j < x = 2^j + x0 < 2^{j+1}.
-- 
2.43.0


From c47d2e2902b64150a064f007d2eb8b5f98ddc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 59/69] fix: exp2_pade uses its highest-degree term

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 229de27..9a45b08 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5605,7 +5605,7 @@ def _exp2_pade_private(prot, x):
         x_pows = [0] * (degree + 1)
         x_pows[0] = 1
         x_pows[1] = x
-        for i in range(2, degree):
+        for i in range(2, degree + 1):
             x_pows[i] = x_pows[i // 2] * x_pows[(i + 1) // 2]
 
         y = [x_pows[i] * c[i] for i in range(degree + 1)]
-- 
2.43.0


From e5a0ef7e1f596956e1b256b97f8c82251b8c3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 60/69] fix: converted convolutions pad the top with the top
 padding

ONNX lists pads as [top, left, bottom, right]; the rows were padded with the
two ends exchanged, which shows as soon as they differ (SAME, strides 2).
---
 tf_encrypted/convert/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d558de0..39be8e8 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -329,7 +329,7 @@ class Conv2dNode(BaseNode):
                 [
                     [0, 0],
                     [0, 0],
-                    [self.padding[2], self.padding[0]],
+                    [self.padding[0], self.padding[2]],
                     [self.padding[1], self.padding[3]],
                 ],
             )
@@ -343,7 +343,7 @@ class Conv2dNode(BaseNode):
             d_y = d_y[
                 :,
                 :,
-                self.padding[2] : dy_shape[2] - self.padding[0],
+                self.padding[0] : dy_shape[2] - self.padding[2],
                 self.padding[1] : dy_shape[3] - self.padding[3],
             ]
         return grad_weights, [d_y]
-- 
2.43.0


From 75fae5b3003bff7bd858a921e05bfc4344710642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 61/69] fix: converted models add up the gradients of a tensor
 used twice

The gradient of a tensor feeding several nodes (a residual connection) was
that of the last one visited only.
---
 tf_encrypted/convert/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 483acb7..ad59b7b 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -251,7 +251,10 @@ class Converter:
                 index = 0
                 for input in node.input:
                     if input in nodes_output:
-                        dy_dict[input] = d_y[index]
+                        if input in dy_dict:
+                            dy_dict[input] = dy_dict[input] + d_y[index]
+                        else:
+                            dy_dict[input] = d_y[index]
                         index += 1
 
             res_dy = []
-- 
2.43.0


From 7e0adc0278b9951c05ba7ad4f8a8539ce5f5a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 62/69] fix: gradients of broadcast operands of converted Add,
 Sub and Mul

The gradient of an added bias was summed over the batch only, whatever axes
the bias is broadcast along, and divided by the batch size, although the
gradient of the loss is already that of the mean (and Dense does not divide);
the other operands' gradients were not summed at all.
---
 tf_encrypted/convert/nodes.py | 55 +++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 39be8e8..3c27cf0 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -83,6 +83,25 @@ class BaseNode(ABC):
         pass
 
 
+def _broadcast_shape(x, y):
+    """Shape of an elementwise operation on tensors of shape `x` and `y`"""
+    rank = max(len(x), len(y))
+    x = [1] * (rank - len(x)) + list(x)
+    y = [1] * (rank - len(y)) + list(y)
+    return [b if a == 1 else a for a, b in zip(x, y)]
+
+
+def _reduce_to_shape(d_y, shape):
+    """Sum a gradient over the axes along which an operand was broadcast"""
+    lead = len(d_y.shape) - len(shape)
+    if lead > 0:
+        d_y = d_y.reduce_sum(axis=list(range(lead)))
+    axes = [i for i, dim in enumerate(shape) if dim == 1 and d_y.shape[i] != 1]
+    if axes:
+        d_y = d_y.reduce_sum(axis=axes, keepdims=True)
+    return d_y
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -90,8 +109,9 @@ class AddNode(BaseNode):
         super(AddNode, self).__init__(node, inputs, model_provider)
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
         input_b = inputs[1]
+        shape_b = input_b if isinstance(input_b, list) else input_b.shape
+        self._output_shapes.append(_broadcast_shape(inputs[0], shape_b))
 
         if isinstance(input_b, tf.Tensor):
             assert isinstance(inputs[1], tf.Tensor), "bias must be a tensor"
@@ -103,22 +123,20 @@ class AddNode(BaseNode):
             self.bias = None
 
     def forward(self, x):
-        if self.bias is None:
-            return [tfe.add(x[0], x[1])]
-        else:
-            return [tfe.add(x[0], self.bias)]
+        self.a = x[0]
+        self.b = x[1] if self.bias is None else self.bias
+        return [tfe.add(self.a, self.b)]
 
     def backward(self, d_y):
         d_y = d_y[0]
         grad_weights = []
+        d_a = _reduce_to_shape(d_y, self.a.shape)
+        d_b = _reduce_to_shape(d_y, self.b.shape)
         if self.bias is None:
-            d_ys = [d_y, d_y]
+            d_ys = [d_a, d_b]
         else:
-            batch_size = d_y.shape[0]
-            d_bias = d_y.reduce_sum(axis=0)
-            d_bias = d_bias / batch_size
-            grad_weights.append(d_bias)
-            d_ys = [d_y]
+            grad_weights.append(d_b)
+            d_ys = [d_a]
         return grad_weights, d_ys
 
 
@@ -130,14 +148,19 @@ class SubNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(_broadcast_shape(inputs[0], inputs[1]))
+
+        self.a, self.b = None, None
 
     def forward(self, x):
+        self.a, self.b = x[0], x[1]
         return [tfe.sub(x[0], x[1])]
 
     def backward(self, d_y):
         d_y = d_y[0]
-        return [], [d_y, tfe.negative(d_y)]
+        d_a = _reduce_to_shape(d_y, self.a.shape)
+        d_b = _reduce_to_shape(tfe.negative(d_y), self.b.shape)
+        return [], [d_a, d_b]
 
 
 class MulNode(BaseNode):
@@ -148,7 +171,7 @@ class MulNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(_broadcast_shape(inputs[0], inputs[1]))
 
         self.a, self.b = None, None
 
@@ -158,8 +181,8 @@ class MulNode(BaseNode):
 
     def backward(self, d_y):
         d_y = d_y[0]
-        d_a = tfe.mul(self.b, d_y)
-        d_b = tfe.mul(self.a, d_y)
+        d_a = _reduce_to_shape(tfe.mul(self.b, d_y), self.a.shape)
+        d_b = _reduce_to_shape(tfe.mul(self.a, d_y), self.b.shape)
         return [], [d_a, d_b]
 
 
-- 
2.43.0


From bb00125ce732e466a4ea4c0a57e75d8cf8513132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 63/69] fix: converted nodes look up their attributes by name

Gemm, BatchNormalization, Split, Concat, Stack and Transpose took them by
position, so a Gemm exported by PyTorch (alpha, beta, transB) lost transB.
The sizes after a Split are integers.
---
 tf_encrypted/convert/nodes.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 3c27cf0..5d2ac9d 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -83,6 +83,11 @@ class BaseNode(ABC):
         pass
 
 
+def _attributes(node):
+    """The attributes of a node by name: their order is not significant"""
+    return {attr.name: attr for attr in node.attribute}
+
+
 def _broadcast_shape(x, y):
     """Shape of an elementwise operation on tensors of shape `x` and `y`"""
     rank = max(len(x), len(y))
@@ -251,14 +256,18 @@ class GemmNode(BaseNode):
         kernel = tfe.define_private_input(model_provider, lambda: inputs[1])
         assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
         bias = tfe.define_private_input(model_provider, lambda: inputs[2])
-        if node.attribute[1].i:
+        attributes = _attributes(node)
+        for name in ("alpha", "beta"):
+            if name in attributes and attributes[name].f != 1.0:
+                raise NotImplementedError("Gemm with {} != 1".format(name))
+        if "transB" in attributes and attributes["transB"].i:
             kernel = kernel.transpose()
         weights = []
         weights.append(kernel)
         weights.append(bias)
 
         self.transpose_x = False
-        if node.attribute[0].i:
+        if "transA" in attributes and attributes["transA"].i:
             self.transpose_x = True
 
         self.layer = Dense(kernel.shape[1], use_bias=True)
@@ -380,7 +389,8 @@ class BatchnormalizationNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        epsilon = float(node.attribute[0].f)
+        attributes = _attributes(node)
+        epsilon = float(attributes["epsilon"].f) if "epsilon" in attributes else 1e-5
         assert isinstance(inputs[1], tf.Tensor), "gamma must be a tensor"
         gamma = tf.keras.initializers.Constant(inputs[1])
         assert isinstance(inputs[2], tf.Tensor), "beta must be a tensor"
@@ -700,10 +710,11 @@ class SplitNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
+        attributes = _attributes(node)
+        self.axis = attributes["axis"].i if "axis" in attributes else 0
 
         if len(inputs) == 2:
-            self.num_or_size_splits = inputs[1]
+            self.num_or_size_splits = [int(size) for size in inputs[1].numpy()]
             for size_split in self.num_or_size_splits:
                 output_shape = deepcopy(self._input_shapes[0])
                 output_shape[self.axis] = size_split
@@ -711,7 +722,7 @@ class SplitNode(BaseNode):
         else:
             self.num_or_size_splits = len(node.output)
             output_shape = deepcopy(self._input_shapes[0])
-            output_shape[self.axis] /= self.num_or_size_splits
+            output_shape[self.axis] //= self.num_or_size_splits
             self._output_shapes = [output_shape for i in range(self.num_or_size_splits)]
 
     def forward(self, x):
@@ -729,7 +740,7 @@ class ConcatNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.extend(inputs)
 
-        self.axis = node.attribute[0].i
+        self.axis = _attributes(node)["axis"].i
         output_shape = deepcopy(inputs[0])
         output_shape[self.axis] = 0
         self.input_dims = []
@@ -754,7 +765,7 @@ class StackNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
+        self.axis = _attributes(node)["axis"].i
         output_shape = []
         for index, dim in enumerate(inputs[0]):
             if index == self.axis:
@@ -821,7 +832,7 @@ class TransposeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.perm = np.array(node.attribute[0].ints)
+        self.perm = np.array(_attributes(node)["perm"].ints)
         self.reversed_perm = np.argsort(self.perm)
         self._output_shapes.append(list(np.array(inputs[0])[self.perm]))
 
-- 
2.43.0


From 401c3a49ef436a421e154026ec8a8a4ad4fc7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 64/69] fix: converted Slice keeps the axes it does not slice

The end of an axis that is not sliced was its size in the input shape, which is
-1 for the batch: the last row was dropped. The output shape was that of the
ends.
---
 tf_encrypted/convert/nodes.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 5d2ac9d..b206b9d 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -634,26 +634,32 @@ class StrideSliceNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        # an axis is sliced up to its end unless told otherwise: the size of the
+        # batch is not known here, and ends may lie beyond the end of the axis
+        limit = np.iinfo(np.int32).max
         self.begin = [0] * len(inputs[0])
-        self.end = deepcopy(inputs[0])
+        self.end = [limit] * len(inputs[0])
         self.strides = [1] * len(inputs[0])
+
+        starts, ends = inputs[1].numpy(), inputs[2].numpy()
         if len(inputs) > 3:
-            self.axes = inputs[3]
+            self.axes = [int(a) for a in inputs[3].numpy()]
         else:
-            self.axes = range(len(inputs[0]))
-
-        if len(inputs) == 5:
-            for index, a in enumerate(self.axes):
-                self.strides[a] = inputs[4][index]
+            self.axes = range(len(starts))
 
         for index, a in enumerate(self.axes):
-            self.begin[a] = inputs[1][index]
-            self.end[a] = inputs[2][index]
+            self.begin[a] = int(np.clip(starts[index], -limit, limit))
+            self.end[a] = int(np.clip(ends[index], -limit, limit))
+            if len(inputs) == 5:
+                self.strides[a] = int(inputs[4].numpy()[index])
 
-        output_shape = deepcopy(self.end)
-        for index, dim in enumerate(output_shape):
-            dim = dim - self.begin[index]
-            dim = dim // self.strides[index]
+        output_shape = []
+        for dim, begin, end, stride in zip(
+            inputs[0], self.begin, self.end, self.strides
+        ):
+            if dim != -1:
+                dim = len(range(dim)[begin:end:stride])
+            output_shape.append(dim)
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From b2e24a78ffcb46c807ea694302b2cee4d41ade25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 65/69] fix: converted reductions over other axes than an
 image's are refused

ReduceMean and ReduceMax took any axes for the last two of four; keepdims is 1
where it is not given, and GlobalMaxPool keeps the dimensions it reduces.
---
 tf_encrypted/convert/nodes.py | 48 ++++++++++++++---------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index b206b9d..9b2e755 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -88,6 +88,20 @@ def _attributes(node):
     return {attr.name: attr for attr in node.attribute}
 
 
+def _spatial_axes(node, input_shape):
+    """Data format and keepdims of a reduction over the axes of an image"""
+    attributes = _attributes(node)
+    axes = []
+    if "axes" in attributes:
+        axes = sorted(axis % len(input_shape) for axis in attributes["axes"].ints)
+    keepdims = attributes["keepdims"].i == 1 if "keepdims" in attributes else True
+    if len(input_shape) == 4 and axes == [1, 2]:
+        return "channels_last", keepdims
+    if len(input_shape) == 4 and axes == [2, 3]:
+        return "channels_first", keepdims
+    raise NotImplementedError("{} over axes {}".format(node.op_type, axes))
+
+
 def _broadcast_shape(x, y):
     """Shape of an elementwise operation on tensors of shape `x` and `y`"""
     rank = max(len(x), len(y))
@@ -462,20 +476,8 @@ class GlobalAvgpoolNode(BaseNode):
         data_format = "channels_first"
         keepdims = True
 
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        if node.op_type.startswith("Reduce"):
+            data_format, keepdims = _spatial_axes(node, inputs[0])
 
         self.layer = GlobalAveragePooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
@@ -595,22 +597,10 @@ class GlobalMaxPoolNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         data_format = "channels_first"
-        keepdims = False
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
+        keepdims = True
 
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        if node.op_type.startswith("Reduce"):
+            data_format, keepdims = _spatial_axes(node, inputs[0])
 
         self.layer = GlobalMaxPooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
-- 
2.43.0


From 92d3e109330fa18714f2f3dd71db6314fce96721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 66/69] fix: options of converted nodes that had no effect are
 refused

Padded, dilated or ceil-mode pooling, dilated, grouped or auto-padded
convolutions, Softmax and Flatten over another axis and Pad with another mode
or value were converted as if the option were not there.
---
 tf_encrypted/convert/nodes.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 9b2e755..aaf6c0f 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -88,6 +88,15 @@ def _attributes(node):
     return {attr.name: attr for attr in node.attribute}
 
 
+def _refuse(node, **supported):
+    """Refuse a node with an attribute whose value is not supported"""
+    for name, attr in _attributes(node).items():
+        if name in supported and not supported[name](attr):
+            raise NotImplementedError(
+                "{} with attribute {} is not supported".format(node.op_type, name)
+            )
+
+
 def _spatial_axes(node, input_shape):
     """Data format and keepdims of a reduction over the axes of an image"""
     attributes = _attributes(node)
@@ -335,6 +344,12 @@ class Conv2dNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
+        _refuse(
+            node,
+            auto_pad=lambda attr: attr.s in (b"NOTSET", b"VALID"),
+            dilations=lambda attr: all(dim == 1 for dim in attr.ints),
+            group=lambda attr: attr.i in (1, inputs[0][1]),
+        )
         strides = list(attributes["strides"].ints)
         group = attributes["group"].i
         try:
@@ -448,6 +463,13 @@ class AvgpoolNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
+        _refuse(
+            node,
+            auto_pad=lambda attr: attr.s in (b"NOTSET", b"VALID"),
+            ceil_mode=lambda attr: attr.i == 0,
+            dilations=lambda attr: all(dim == 1 for dim in attr.ints),
+            pads=lambda attr: all(dim == 0 for dim in attr.ints),
+        )
         pool_shape = attributes["kernel_shape"].ints
         strides = attributes["strides"].ints
 
@@ -545,6 +567,7 @@ class SoftmaxNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        _refuse(node, axis=lambda attr: attr.i in (-1, len(inputs[0]) - 1))
         self.layer = Activation("softmax")
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
@@ -571,6 +594,13 @@ class MaxPoolNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
+        _refuse(
+            node,
+            auto_pad=lambda attr: attr.s in (b"NOTSET", b"VALID"),
+            ceil_mode=lambda attr: attr.i == 0,
+            dilations=lambda attr: all(dim == 1 for dim in attr.ints),
+            pads=lambda attr: all(dim == 0 for dim in attr.ints),
+        )
         pool_shape = attributes["kernel_shape"].ints
         strides = attributes["strides"].ints
 
@@ -808,6 +838,7 @@ class FlattenNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        _refuse(node, axis=lambda attr: attr.i == 1)
         last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]))
         self._output_shapes.append([-1, last_dim])
 
@@ -897,6 +928,9 @@ class PadNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        _refuse(node, mode=lambda attr: attr.s == b"constant")
+        if len(inputs) > 2 and np.any(inputs[2].numpy() != 0):
+            raise NotImplementedError("Pad with a value other than 0")
         p = list(inputs[1].numpy())
         dims = len(p) // 2
         self.paddings_lst = [[p[i], p[i + dims]] for i in range(0, dims)]
-- 
2.43.0


From a0534702bd2dc074ff4d9713a6b3b79d280a5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 67/69] fix: negative and last axes of converted Unsqueeze,
 Squeeze, Gather, Stack

Their output shape was that of another operation, from which a following layer
was built. Squeeze also takes its axes from the attribute, and the gradient of
Stack is that of each of its operands.
---
 tf_encrypted/convert/nodes.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index aaf6c0f..a5e10ca 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -709,7 +709,8 @@ class GatherNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
-        self.axis = attributes["axis"].i
+        self.axis = attributes["axis"].i if "axis" in attributes else 0
+        self.axis %= len(inputs[0])
         self.indices = inputs[1]
 
         output_shape = []
@@ -793,10 +794,14 @@ class StackNode(BaseNode):
 
         self.axis = _attributes(node)["axis"].i
         output_shape = []
+        if self.axis < 0:
+            self.axis += len(inputs[0]) + 1
         for index, dim in enumerate(inputs[0]):
             if index == self.axis:
                 output_shape.append(len(inputs))
             output_shape.append(dim)
+        if self.axis == len(inputs[0]):
+            output_shape.append(len(inputs))
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -804,10 +809,8 @@ class StackNode(BaseNode):
 
     def backward(self, d_y):
         d_y = d_y[0]
-        d_ys = tfe.split(d_y, num_or_size_splits=1, axis=self.axis)
-        for dy in d_ys:
-            dy = tfe.squeeze(dy, axis=self.axis)
-        return [], d_ys
+        d_ys = tfe.split(d_y, len(self.inputs), self.axis)
+        return [], [tfe.squeeze(dy, axis=[self.axis]) for dy in d_ys]
 
 
 class ReshapeNode(BaseNode):
@@ -879,11 +882,15 @@ class ExpandDimsNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         self.axis = inputs[1].numpy().item()
+        if self.axis < 0:
+            self.axis += len(inputs[0]) + 1
         output_shape = []
         for index, dim in enumerate(inputs[0]):
             if index == self.axis:
                 output_shape.append(1)
             output_shape.append(dim)
+        if self.axis == len(inputs[0]):
+            output_shape.append(1)
         self._output_shapes.append(deepcopy(output_shape))
 
     def forward(self, x):
@@ -902,7 +909,11 @@ class SqueezeNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         if len(inputs) == 2:
-            self.axes = list(inputs[1].numpy())
+            self.axes = [axis % len(inputs[0]) for axis in inputs[1].numpy()]
+        elif "axes" in _attributes(node):
+            self.axes = [
+                axis % len(inputs[0]) for axis in _attributes(node)["axes"].ints
+            ]
         else:
             self.axes = None
 
-- 
2.43.0


From 4530728a1a9a7b22bfe5dd256dfc33ebf8e66496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 68/69] fix: models are loaded from a path by
 tf.keras.models.load_model

---
 tf_encrypted/convert/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index ad59b7b..e9088bf 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -75,7 +75,7 @@ class Converter:
 
         if isinstance(model, str):
             if model.endswith(".pb"):
-                model = tf.keras.load_model(model)
+                model = tf.keras.models.load_model(model)
                 input_spec = []
                 for input_shape in input_shapes:
                     input_spec.append(
-- 
2.43.0


From f066a47a8c6467c957112465062bf7e024b7683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:46 +0000
Subject: [PATCH 69/69] fix: a converted Add reads the current value of its
 bias

It added the value the variable was defined with, so that training the bias had
no effect on the output.
---
 tf_encrypted/convert/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index a5e10ca..1946f15 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -152,7 +152,7 @@ class AddNode(BaseNode):
 
     def forward(self, x):
         self.a = x[0]
-        self.b = x[1] if self.bias is None else self.bias
+        self.b = x[1] if self.bias is None else self.bias.read_value()
         return [tfe.add(self.a, self.b)]
 
     def backward(self, d_y):
-- 
2.43.0

