From d0a7a9135a2524aeb390005276dd1a8c297af130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:07 +0000
Subject: [PATCH 1/3] fix: avoid overflow panic when inverting modulo q

The Newton step in poly_r2_inv_to_rq_inv computes 2 - a*r modulo 2^16.
Adding 2 to the constant coefficient overflowed for values 0xfffe and
0xffff, so key generation panicked in builds with overflow checks for
some random seeds. Use wrapping addition, as intended.
---
 src/poly.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index e45c48b..7b4dcad 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -87,19 +87,19 @@ pub fn poly_r2_inv_to_rq_inv(r: &mut Poly, ai: Poly, a: &Poly) {
         r.coeffs[i] = ai.coeffs[i];
     }
     poly_rq_mul(&mut c, r, &b);
-    c.coeffs[0] += 2; // c = 2 - a*ai
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*ai
     poly_rq_mul(&mut s, &c, r); // s = ai*c
 
     poly_rq_mul(&mut c, &s, &b);
-    c.coeffs[0] += 2; // c = 2 - a*s
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*s
     poly_rq_mul(r, &c, &s);
 
     poly_rq_mul(&mut c, r, &b);
-    c.coeffs[0] += 2; // c = 2 - a*r
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*r
     poly_rq_mul(&mut s, &c, r); // s = r*c
 
     poly_rq_mul(&mut c, &s, &b);
-    c.coeffs[0] += 2; // c = 2 - a*s
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*s
     poly_rq_mul(r, &c, &s); // r = s*c
 }
 
-- 
2.43.0


From 227f19a130b5f27f8404c4ebb34fe1686e36d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:07 +0000
Subject: [PATCH 2/3] fix: wrap the generator's 128-bit counter block around

The counter block V is incremented modulo 2^128. When V was all ones the
addition panicked in builds with overflow checks.
---
 src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rng.rs b/src/rng.rs
index ae69f9c..ee92a00 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -58,7 +58,7 @@ impl AesState {
 
         for tmp in &mut temp[0..3] {
             let count = u128::from_be_bytes(*v);
-            v.copy_from_slice(&(count + 1).to_be_bytes());
+            v.copy_from_slice(&count.wrapping_add(1).to_be_bytes());
 
             Self::aes256_ecb(key, v, tmp);
         }
@@ -83,7 +83,7 @@ impl RNGState for AesState {
     fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn error::Error>> {
         for chunk in x.chunks_mut(16) {
             let count = u128::from_be_bytes(self.v);
-            self.v.copy_from_slice(&(count + 1).to_be_bytes());
+            self.v.copy_from_slice(&count.wrapping_add(1).to_be_bytes());
 
             let mut block = [0u8; 16];
             Self::aes256_ecb(&self.key, &self.v, &mut block);
-- 
2.43.0


From 45aa271bfef8a821528127a1121faf5bf3d0ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:07 +0000
Subject: [PATCH 3/3] fix: do not panic when the generator's call counter is
 exhausted

reseed_counter is only informative, but incrementing it past i32::MAX
panicked in builds with overflow checks.
---
 src/rng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.rs b/src/rng.rs
index ee92a00..eefeff5 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -92,7 +92,7 @@ impl RNGState for AesState {
         }
 
         Self::aes256_ctr_update(&mut None, &mut self.key, &mut self.v);
-        self.reseed_counter += 1;
+        self.reseed_counter = self.reseed_counter.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0

