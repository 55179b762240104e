From d6a1a913586e0d65d8b7f91867ef645cc6708cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 1/9] fix: encrypt_rgsw uses the decomposition base of its
 output ciphertext

neg_gsw allocates its output with negs_base_log, but the message was scaled
with base_log, so RGSW(-s) was wrong whenever the two parameters differ.
---
 src/rlwe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..dcdc74d 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -450,9 +450,12 @@ impl RLWESecretKey {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
+        // the gadget is the one of the output ciphertext, which may differ from
+        // the default one in the context (e.g., see neg_gsw)
+        let base_log = out.decomposition_base_log().0;
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 4b99ce6d5874b96a7db04015628af4d726662b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 2/9] fix: hash_to_mapping refuses an index whose slots are all
 taken

The check was inside the loop over the hash functions, where it can never be
true, so an index that could not be placed was silently left out of the query.
---
 src/naive_hash.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..167f34b 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -73,15 +73,17 @@ impl NaiveHash {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
         for i in is {
+            let mut placed = false;
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
+                    placed = true;
                     break;
                 }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
-                }
+            }
+            if !placed {
+                panic!("all slots are taken for i={}", i);
             }
         }
         out
-- 
2.43.0


From e373f8e20bcb0a71097823541fab00f02535d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 3/9] fix: simulate does not panic on a model whose leaves are
 all zero

---
 src/decision_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..0ceff7f 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -632,6 +632,10 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    if bv.is_empty() {
+        // all the leaves are zero, so the output has no bits
+        return Scalar::zero();
+    }
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From deddabef0ad96dc9842c1244bf78bac38ea47460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 4/9] fix: compute_noise_ternary compares against the encoded
 plaintext

It decoded the (already unencoded) ternary plaintext, so the reported noise
was the size of the message instead of the error.
---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index dcdc74d..7232a1e 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1292,7 +1292,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 66824faded14ae71fcdb46e3900b326ce8ef3e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 5/9] verification hooks behind cfg(panacea_verif)

---
 src/decision_tree.rs | 10 ++++++++++
 src/oram.rs          | 16 ++++++++++++++++
 src/params.rs        |  8 ++++++++
 3 files changed, 34 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 0ceff7f..295f7eb 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -639,6 +639,16 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
     bv.load::<Scalar>()
 }
 
+#[cfg(panacea_verif)]
+/// Verification hook for `decrypt_and_recompose`.
+pub fn verif_decrypt_and_recompose(
+    sk: &RLWESecretKey,
+    cts: &Vec<RLWECiphertext>,
+    ctx: &Context,
+) -> Scalar {
+    decrypt_and_recompose(sk, cts, ctx)
+}
+
 /// Simulate PDTE evaluations by specifying a `model`, a set of `features`.
 /// If `parallel` is set to true then different features are evaluated in parallel.
 /// See the rayon documentation for how to control the number of threads.
diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..c21aac3 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -55,6 +55,14 @@ impl ClientQuery {
     }
 }
 
+#[cfg(panacea_verif)]
+impl ClientQuery {
+    /// Verification hook: the encrypted index bits, operation and data.
+    pub fn verif_parts(&self) -> (&[RGSWCiphertext], &RGSWCiphertext, &RLWECiphertext) {
+        (&self.a, &self.op.0, &self.data)
+    }
+}
+
 /// ORAM client state.
 pub struct Client {
     pub sk: RLWESecretKey,
@@ -603,6 +611,14 @@ impl Server {
     }
 }
 
+#[cfg(panacea_verif)]
+impl Server {
+    /// Verification hook: a copy of the stored ciphertext at row `r` and column `c`.
+    pub fn verif_cell(&self, r: usize, c: usize) -> RLWECiphertext {
+        self.data[r].read().unwrap()[c].clone()
+    }
+}
+
 /// Setup the ORAM client and server for experimentation.
 pub fn setup_random_oram(
     rows: usize,
diff --git a/src/params.rs b/src/params.rs
index 5902e59..8f540cf 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -14,8 +14,16 @@ pub struct TFHEParameters {
     pub secure_seed: bool,
 }
 
+/// Verification hook: replaces the default parameters, e.g., by a smaller ring.
+#[cfg(panacea_verif)]
+pub static VERIF_DEFAULT: std::sync::Mutex<Option<TFHEParameters>> = std::sync::Mutex::new(None);
+
 impl Default for TFHEParameters {
     fn default() -> Self {
+        #[cfg(panacea_verif)]
+        if let Some(params) = VERIF_DEFAULT.lock().unwrap().clone() {
+            return params;
+        }
         Self {
             standard_deviation: -55.0,
             polynomial_size: 2048,
-- 
2.43.0


From 5bd6c86f449c5f920370f055d1ba4f48dc0d9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 6/9] fix: update_body_with_mul multiplies the body instead of
 zeroing it

---
 src/rlwe.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 7232a1e..d04fb28 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -143,11 +143,6 @@ impl RLWECiphertext {
     }
 
     pub fn update_body_with_mul(&mut self, other: &Polynomial<&mut [Scalar]>) {
-        let mut poly_buffer = Polynomial::allocate(Scalar::zero(), self.polynomial_size());
-        poly_buffer
-            .as_mut_tensor()
-            .fill_with_copy(self.get_body().as_tensor());
-        self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
         naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
     }
 
-- 
2.43.0


From e0a44ae37dfb4382ec91d83ae518c8180330a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 7/9] fix: a parallel loop over a single element runs outside
 the thread pool

---
 src/oram.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index c21aac3..52288e7 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -257,7 +257,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -276,7 +276,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -318,7 +318,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -356,7 +356,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -399,7 +399,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -478,7 +478,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = rayon::current_thread_index().unwrap_or(0);
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -532,7 +532,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = rayon::current_thread_index().unwrap_or(0);
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -647,7 +647,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From 3336bc866d3a12b5a162c39e16d743ca07560a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 8/9] fix: EncNode::eval allocates an output for every bit of
 the largest label

---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 295f7eb..ca019ab 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 01513f50f39a10c4b7dc302aa41098569cd2f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 9/9] fix: compute_noise handles an error of half the torus

---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index d04fb28..0677d30 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1266,10 +1266,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0

