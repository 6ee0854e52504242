From f2ba54469ac580a58aed81405b70ed1ec55ff931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 01/38] fix: place the sum of two ABY3 public tensors on the
 servers' devices

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..1c28e81 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2225,7 +2225,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From bf04b895636a451e7f0805b0e6595ca2b45436fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 02/38] fix: hand a public input to every ABY3 server on its
 own device

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1c28e81..5ce0aaf 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            ws = [None, None, None]
+            for i in range(3):
+                with tf.device(self.servers[i].device_name):
+                    ws[i] = w.identity()
+            return ABY3PublicTensor(self, ws, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From 09e41e9d5da123765ccb1f5600699f783a272522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 03/38] fix: accept public tensors as arguments of an ABY3
 local computation

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5ce0aaf..ea3c6d6 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,7 +605,7 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From a5507f069434b9c81bf7be031ce13d6735adedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 04/38] fix: reconstruct an ABY3 local computation's argument
 by its own sharing kind

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index ea3c6d6..b703c40 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -611,7 +611,7 @@ class ABY3(Protocol):
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 7f3ee316afd77ac632607771da04afa76c538373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 05/38] fix: give each ABY3 server its own copy of the
 truncated shares

---
 tf_encrypted/protocol/aby3/aby3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index b703c40..3ed0b95 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2753,7 +2753,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2761,7 +2761,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
@@ -2830,8 +2830,8 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
@@ -2847,7 +2847,7 @@ def _truncate_msb0_cheetah_private(
         z[1][1] = x_bob_on_1_trunc - error[1][1]
     with tf.device(prot.servers[2].device_name):
         z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From e151493cc1a07d757e921ffc04021a527503a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 06/38] fix: construct ABY3 public zeros and ones without a
 share type

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3ed0b95..8e698b3 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5392,7 +5392,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5433,7 +5433,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 745227016a0c085290deee117a2a5866f90d8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/38] fix: zeros and pad of the native and int128 tensor
 factories

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..34a6946 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,10 +221,10 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From 69df11027b96c5afc889bd05b206ad135ca48f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:11 +0000
Subject: [PATCH 08/38] fix: reduce_max over all axes with a sorting network

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 8e698b3..6c12f54 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5085,10 +5085,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From a35bd975c11af210b03a816b097a360b9f736609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 09/38] fix: pad an ABY3 sort with a bound that stays inside
 the comparison range

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 6c12f54..5100385 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5860,7 +5860,7 @@ def _sort_private(
             # We can only handle numbers of bit length k-2 for comparison
             max_bound = (1 << (x.backing_dtype.nbits - 2)) - 1
             pad = prot.define_constant(
-                np.ones([n - unpadded_n] + x.shape[1:]) * max_bound, apply_scaling=False
+                np.full([n - unpadded_n] + x.shape[1:], max_bound), apply_scaling=False
             )
             pad = pad.to_private(x.share_type)
             pad.is_scaled = x.is_scaled
-- 
2.43.0


From a748f936c71e2a245a1b01dfcd5baed1ff976bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:59 +0000
Subject: [PATCH 10/38] fix: mask every element of a broadcasting ABY3 product

---
 tf_encrypted/protocol/aby3/aby3.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5100385..fa2df45 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2453,8 +2453,10 @@ def _mul_private_private(prot, x, y):
     y_shares = y.unwrapped
 
     z = [[None, None], [None, None], [None, None]]
+    # every element of the result needs its own mask, also those that broadcasting adds
+    shape = tf.broadcast_static_shape(x_shares[0][0].shape, y_shares[0][0].shape)
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2510,7 +2512,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x_shares[0][0].shape, y_shares[0][0].shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2522,7 +2524,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -3133,10 +3135,11 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
     x_shares = x.unwrapped
     y_shares = y.unwrapped
 
+    shape = tf.broadcast_static_shape(x_shares[0][0].shape, y_shares[0][0].shape)
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From e8df19af3ea847f91c5f851c8f945872443ecd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 11/38] fix: mask the shares that the cheetah truncation of
 ABY3 sends

---
 tf_encrypted/protocol/aby3/aby3.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index fa2df45..180370c 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2835,21 +2835,28 @@ def _truncate_msb0_cheetah_private(
         w[2][0] = w[1][1].identity()
         w[2][1] = w_alice.identity()
 
+    prot._update_pairwise_nonces()
+
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # Server 2 also holds the first share of the error, so the truncated values have
+    # to be masked before they are reshared
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = x_alice_trunc - error[0][0] + a0
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][0] = a1 - error[1][0]
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
+        z[2][0] = x_bob_on_2_trunc - error[2][0] + a2
         z[2][1] = z[0][0].identity()
+    with tf.device(prot.servers[0].device_name):
+        z[0][1] = z[1][0].identity()
+    with tf.device(prot.servers[1].device_name):
+        z[1][1] = z[2][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From b7ec029dd30a0e0bb2b63935c2630d7d57a2ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:46 +0000
Subject: [PATCH 12/38] fix: mask every element of a batched ABY3 matrix
 product

---
 tf_encrypted/protocol/aby3/aby3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 180370c..f37f6e4 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2632,7 +2632,10 @@ def _matmul_private_private(prot, x, y):
 
     # Tensorflow supports matmul for more than 2 dimensions,
     # with the inner-most 2 dimensions specifying the 2-D matrix multiplication
-    result_shape = tf.TensorShape((*x.shape[:-1], y.shape[-1]))
+    batch_shape = tf.broadcast_static_shape(
+        tf.TensorShape(x.shape[:-2]), tf.TensorShape(y.shape[:-2])
+    )
+    result_shape = batch_shape.concatenate([x.shape[-2], y.shape[-1]])
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("matmul"):
-- 
2.43.0


From d313f0cf9e426713824ced717b3098fb37fa4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 13/38] fix: add a Pond tensor to a number on the left

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..6f6a8d7 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1697,7 +1697,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(other, self)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From 414d382fbc249c05afab7c0fcd90c95cde28ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 14/38] fix: keep the second share of a Pond private-public
 matmul on its server

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 6f6a8d7..90214fd 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3149,7 +3149,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
-- 
2.43.0


From 9b25fd41cdab38e41b6e7296ed21c145775de8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 15/38] fix: squeeze masked Pond tensors along the given axis

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 90214fd..5f61996 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4427,11 +4427,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4443,7 +4443,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From 49ce801489d5a4f4d02b58b0a2508c083d53b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 16/38] fix: slice the unmasked part of a masked Pond tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 5f61996..f1a757b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3718,7 +3718,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
-- 
2.43.0


From b8fe827e532972143bd632f53311142a72c75839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 17/38] fix: accept lists of strides in the Pond convolution

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index f1a757b..4250b6a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1379,7 +1379,7 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
+        node_key = ("conv2d", x, w, tuple(strides), padding)
         z = nodes.get(node_key, None)
 
         if z is not None:
-- 
2.43.0


From 7684757fc876fc2680d5b7b8dad647e7bba288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 18/38] fix: divide Pond tensors by floats

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 4250b6a..299f9aa 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1042,7 +1042,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From b40253a313be1f5953a5ce07b3e843dbd278dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 19/38] fix: pool Pond tensors with equal pool size and strides
 under TF2

---
 tf_encrypted/protocol/pond/pond.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 299f9aa..b2a5b8c 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3371,8 +3371,7 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height, pool_width = pool_size
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From 53b36cba6b68e60840fdb282ebeeb771c129eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 20/38] fix: mask the outputs of Pond local computations with
 both seeds, on their player

---
 tf_encrypted/protocol/pond/pond.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index b2a5b8c..887792e 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -556,8 +556,10 @@ class Pond(Protocol):
                 with tf.device(self.triple_source.producer.device_name):
                     seed0 = crypto.secure_seed()
                     seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
+                    a = factory.sample_seeded_uniform(
+                        v.shape, seed0
+                    ) + factory.sample_seeded_uniform(v.shape, seed1)
+                with tf.device(player.device_name):
                     alpha = w - a
                 with tf.device(self.server_0.device_name):
                     a0 = factory.sample_seeded_uniform(v.shape, seed0)
-- 
2.43.0


From 7315a076964f5365e9aac007a43274a5b284a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 21/38] fix: encode tensors without an explicit integer type in
 Pond

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 887792e..fe198b1 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -747,8 +747,8 @@ class Pond(Protocol):
                 integers = np.array(scaled).astype(np.int64)
             elif isinstance(rationals, tf.Tensor):
                 tf_int_type = tf_int_type or (
-                    scaled.dtype
-                    if scaled.dtype in TF_INT_TYPES
+                    rationals.dtype
+                    if rationals.dtype in TF_INT_TYPES
                     else self.tensor_factory.native_type
                 )
                 assert tf_int_type in TF_INT_TYPES
-- 
2.43.0


From 0d9fe41bb44920b29eed7a083dc7e757143c237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 22/38] fix: remember transpose, strided_slice and stack in
 Pond per arguments

---
 tf_encrypted/protocol/pond/pond.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index fe198b1..81d49fe 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,6 +47,7 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import make_hashable
 from ..protocol import memoize
 from ..protocol import nodes
 from .triple_sources import BaseTripleSource
@@ -1082,7 +1083,7 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
+        node_key = ("transpose", x, make_hashable(perm))
         x_t = nodes.get(node_key, None)
 
         if x_t is not None:
@@ -1174,7 +1175,8 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
+        slice_args = (make_hashable(args), make_hashable(kwargs))
+        node_key = ("strided_slice", x, slice_args)
 
         x_sliced = nodes.get(node_key, None)
 
@@ -1187,7 +1189,7 @@ class Pond(Protocol):
             x_sliced = _strided_slice_private(self, x, args, kwargs)
         elif isinstance(x, PondMaskedTensor):
             x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
+            nodes[("strided_slice", x.unmasked, slice_args)] = x_sliced.unmasked
         else:
             raise TypeError(
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
@@ -1210,7 +1212,7 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
+        node_key = ("stack", tuple(xs), axis)
         xs_stack = nodes.get(node_key, None)
 
         if xs_stack is not None:
-- 
2.43.0


From e529afdd9e1cd4c7ee4b272d9ac39bc19d1f832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 23/38] fix: compare public Pond tensors on both servers

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 81d49fe..80badd1 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4475,7 +4475,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 759e9f48e26a3324bf8416c72ec7244161e1516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 24/38] fix: pad unscaled Pond tensors

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 80badd1..8444355 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1499,7 +1499,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From 61f07ca30f49481b6b18cc9a92b271503ab14bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 25/38] fix: int128 tensors: count negative axes from the last
 logical axis

---
 tf_encrypted/tensor/int128.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 34a6946..dacc106 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -244,18 +244,13 @@ def int128_factory():  # pylint: disable=invalid-name
 
     def _lift_axis(axis, dims):
         if isinstance(axis, (list, tuple)):
-            new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
+            return [_lift_axis(a, dims) for a in axis]
         if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+            assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(
+                dims, axis
+            )
+            if axis < 0:
+                axis += dims
         return axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
-- 
2.43.0


From 3f3a3f56aeb2ca014670691bdaca2a8b3c6a8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 26/38] fix: int128 tensors: indexing with an ellipsis selected
 words, not elements

---
 tf_encrypted/tensor/int128.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index dacc106..13033e2 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -339,6 +339,10 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            keys = slc if isinstance(slc, tuple) else (slc,)
+            if any(key is Ellipsis for key in keys):
+                # the ellipsis must not swallow the last, internal axis
+                slc = keys + (slice(None),)
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From 348bfbee29f6cb90eb6d1e594d4babd82ea2a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 27/38] fix: int128 tensors: bits() returned the bits of the
 two words side by side

---
 tf_encrypted/tensor/int128.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 13033e2..f7c45f8 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -289,9 +289,9 @@ def int128_factory():  # pylint: disable=invalid-name
             else:
                 t0 = tf.gather(self.value, 0, axis=-1)
                 t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+                t0 = binarize(t0, 64)
+                t1 = binarize(t1, bitsize - 64)
+                return factory.tensor(tf.concat([t0, t1], axis=-1))
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From edf099618b88520e6e4d79c78ca19d70b8119745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 28/38] fix: patches2im mixed up the vertical and the
 horizontal stride

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From 0055cac92c9101f98d3f35fbb15ac47c3dc87f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 29/38] fix: int100 tensors: subtract a tensor from a number,
 not the number from the tensor

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..1944022 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -553,7 +553,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def __rsub__(self, other):
             x, y = _lift(self, other)
-            return x.sub(y)
+            return y.sub(x)
 
         def __mul__(self, other):
             x, y = _lift(self, other)
-- 
2.43.0


From f1ef348de33635884e381094b7d9130b9c1fdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 30/38] fix: bool and int100 variables: assign raised after
 assigning

---
 tf_encrypted/tensor/boolfactory.py | 10 +++++-----
 tf_encrypted/tensor/int100.py      |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..e0f0940 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -290,11 +290,11 @@ def bool_factory():
 
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
-                self.variable.assign(value.value)
-            if isinstance(value, np.ndarray):
-                self.variable.assign(value)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+                return self.variable.assign(value.value)
+            elif isinstance(value, np.ndarray):
+                return self.variable.assign(value)
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             return Tensor(self.variable.read_value())
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 1944022..52de4e5 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,9 +814,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
+                return
             if isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
+                return
 
             raise TypeError("Don't know how to handle {}".format(type(value)))
 
-- 
2.43.0


From 85d54e84e57b071bc90de2f2ca059c61c74f883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 31/38] fix: int100 tensors: seeded samples used the last
 modulus for every residue

---
 tf_encrypted/tensor/int100.py | 39 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 52de4e5..1d3e634 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -235,30 +235,29 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             assert minval is None
             assert maxval is None
 
+            # every residue is drawn below its own modulus, from its own seed
             if secure_random.supports_seeded_randomness():
-                shape = list(shape) + [len(MODULI)]
-                value = secure_random.seeded_random_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
+                seeds = tf.unstack(
+                    secure_random.seeded_random_uniform(
+                        shape=[len(MODULI), 8],
+                        dtype=tf.int32,
+                        minval=tf.int32.min,
+                        maxval=tf.int32.max,
+                        seed=seed,
+                    )
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                sampler = secure_random.seeded_random_uniform
             else:
-                shape = list(shape) + [len(MODULI)]
-                value = tf.random.stateless_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
+                seeds = tf.unstack(
+                    tf.random.experimental.stateless_split(seed, len(MODULI))
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                sampler = tf.random.stateless_uniform
+
+            backing = [
+                sampler(shape=shape, dtype=INT_TYPE, minval=0, maxval=mi, seed=si)
+                for (mi, si) in zip(MODULI, seeds)
+            ]
+            return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
 
-- 
2.43.0


From e67323c94d81fd84bc4548ab37b4b99ebc2da447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 32/38] fix: odd tensors: samples hit zero twice and two values
 never

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index 729adff..ff5cba1 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -303,7 +303,7 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
             minval=NATIVE_TYPE.min + 1,
             maxval=NATIVE_TYPE.max,
         )
-        shifted_values = unshifted_value + tf.ones(
+        shifted_values = unshifted_value - tf.ones(
             shape=unshifted_value.shape, dtype=unshifted_value.dtype
         )
         value = tf.where(unshifted_value < 0, shifted_values, unshifted_value)
-- 
2.43.0


From 3d726d9365bad307ff8e64ffa93f9b97921a6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 33/38] fix: odd tensors: adding or subtracting a number raised

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index ff5cba1..cd82be1 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -7,7 +7,6 @@ from functools import partial
 from typing import Optional
 from typing import Tuple
 
-import numpy as np
 import tensorflow as tf
 
 from ...operations import secure_random
@@ -284,12 +283,12 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
         if isinstance(x, OddTensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(np.array([y]))
+                return x, x.factory.tensor(tf.constant([y], dtype=NATIVE_TYPE))
 
         if isinstance(y, OddTensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(np.array([x])), y
+                return y.factory.tensor(tf.constant([x], dtype=NATIVE_TYPE)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From 784c2591611c0eae9c160abafec98992af770951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 34/38] fix: odd tensors: a number is a scalar

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index cd82be1..dc2de38 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -283,12 +283,12 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
         if isinstance(x, OddTensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(tf.constant([y], dtype=NATIVE_TYPE))
+                return x, x.factory.tensor(tf.constant(y, dtype=NATIVE_TYPE))
 
         if isinstance(y, OddTensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(tf.constant([x], dtype=NATIVE_TYPE)), y
+                return y.factory.tensor(tf.constant(x, dtype=NATIVE_TYPE)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From df8c91f6cefb121aa3e73e60dc09a42ac56147a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 35/38] fix: SecureNN: the sign of -1 was lost, and masked
 tensors had none

---
 tf_encrypted/protocol/securenn/securenn.py | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..32be22b 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -156,8 +156,9 @@ class SecureNN(Pond):
         """
         with tf.name_scope("msb"):
             # when the modulus is odd msb reduces to lsb via x -> 2*x
-            x = self.cast_backing(x, self.odd_factory)
-            return self.lsb(x + x)
+            if x.backing_dtype.modulus % 2 == 1:
+                return self.lsb(x + x)
+            return self.dispatch("msb", x, container=_thismodule)
 
     @memoize
     def lsb(self, x: PondTensor) -> PondTensor:
@@ -581,6 +582,25 @@ def _bits_public(prot, x: PondPublicTensor, factory=None) -> PondPublicTensor:
         return PondPublicTensor(prot, bits_on_0, bits_on_1, False)
 
 
+def _msb_public(prot, x: PondPublicTensor):
+    return prot.bits(x)[..., -1]
+
+
+def _msb_private(prot, x: PondPrivateTensor):
+    """Reduce to lsb by interpreting the shares in the odd type."""
+    y0, y1 = prot.cast_backing(x, prot.odd_factory).unwrapped
+    with tf.device(prot.server_0.device_name):
+        # the shares of a non-negative value wrap around in the even type, which
+        # adds one in the odd type; without the correction -1 would become zero
+        y0 = y0 - 1
+    y = PondPrivateTensor(prot, y0, y1, False)
+    return prot.lsb(y + y)
+
+
+def _msb_masked(prot, x: PondMaskedTensor):
+    return prot.msb(x.unmasked)
+
+
 def _lsb_public(prot, x: PondPublicTensor):
     # TODO[Morten]
     # we could call through and ask the underlying dtype for its lsb instead as
-- 
2.43.0


From e3f393e13d865f5f79c807e6df25ac9c0134139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 36/38] fix: SecureNN: relu of large tensors returned the
 comparison instead

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 32be22b..cb4bbf2 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -370,7 +370,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(int(max_size // np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
@@ -385,7 +385,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 0be8e4eef0813c917153dc82971950dcfde846d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 37/38] fix: SecureNN: max pooling raised

---
 tf_encrypted/protocol/securenn/securenn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index cb4bbf2..85d0c43 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -832,11 +832,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
@@ -881,7 +881,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From ff51e91eb7327d8a76276aa6c732bb67cebbb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 38/38] fix: SecureNN: argmax over a single position lost the
 other axes

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 85d0c43..c672293 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -549,7 +549,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(t.shape.as_list(), i))
+                for i, t in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0

