From 3c9456339fb840d4dc2c0096ba3c3ee989a1e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 1/3] fix: evaluate the degree-11 S-box that Poseidon2Params
 accepts

Poseidon2Params::new accepts d = 11, but Poseidon2::sbox_p had no branch for
it, so every evaluation of such an instance panicked.
---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From da47d08ab4bd923cebcb7827f519bebce70bb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 2/3] fix: invert matrices that need a row exchange

mat_inverse eliminated without pivoting, so it panicked on every invertible
matrix with a zero leading principal minor, and PoseidonParams::new refused
valid matrices for the same reason. Singular matrices still panic.
---
 src/utils.rs | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e8a39a..d9349ba 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,37 +19,29 @@ pub fn mat_inverse<F: PrimeField>(mat: &[Vec<F>]) -> Vec<Vec<F>> {
 
     // upper triangle
     for row in 0..n {
-        for j in 0..row {
-            // subtract from these rows
-            let el = m[row][j];
-            for col in 0..n {
-                // do subtraction for each col
-                if col < j {
-                    m[row][col] = F::zero();
-                } else {
-                    let mut tmp = m[j][col];
-                    tmp.mul_assign(&el);
-                    m[row][col].sub_assign(&tmp);
-                }
-                if col > row {
-                    inv[row][col] = F::zero();
-                } else {
-                    let mut tmp = inv[j][col];
-                    tmp.mul_assign(&el);
-                    inv[row][col].sub_assign(&tmp);
-                }
-            }
-        }
+        // swap a row with a non-zero pivot into place
+        let pivot = (row..n).find(|&r| !m[r][row].is_zero()).unwrap();
+        m.swap(row, pivot);
+        inv.swap(row, pivot);
+
         // make 1 in diag
         let el_inv = m[row][row].inverse().unwrap();
         for col in 0..n {
-            match col.cmp(&row) {
-                std::cmp::Ordering::Less => inv[row][col].mul_assign(&el_inv),
-                std::cmp::Ordering::Equal => {
-                    m[row][col] = F::one();
-                    inv[row][col].mul_assign(&el_inv)
-                }
-                std::cmp::Ordering::Greater => m[row][col].mul_assign(&el_inv),
+            m[row][col].mul_assign(&el_inv);
+            inv[row][col].mul_assign(&el_inv);
+        }
+
+        // subtract from the rows below
+        for j in row + 1..n {
+            let el = m[j][row];
+            for col in 0..n {
+                let mut tmp = m[row][col];
+                tmp.mul_assign(&el);
+                m[j][col].sub_assign(&tmp);
+
+                let mut tmp = inv[row][col];
+                tmp.mul_assign(&el);
+                inv[j][col].sub_assign(&tmp);
             }
         }
     }
-- 
2.43.0


From 1879f0a783ebb1a51c1957ebe8dd95553b469324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:39 +0000
Subject: [PATCH 3/3] fix: refuse Poseidon round-constant rows shorter than the
 state

In builds without debug assertions a too short row truncated the state in
add_rc and the remaining words were silently dropped from the hash.
---
 src/poseidon/poseidon_params.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/poseidon/poseidon_params.rs b/src/poseidon/poseidon_params.rs
index b79a07a..8360036 100644
--- a/src/poseidon/poseidon_params.rs
+++ b/src/poseidon/poseidon_params.rs
@@ -34,6 +34,7 @@ impl<S: PrimeField> PoseidonParams<S> {
         assert_eq!(rounds_f % 2, 0);
         let r = rounds_f / 2;
         let rounds = rounds_f + rounds_p;
+        assert!(round_constants.iter().take(rounds).all(|rc| rc.len() >= t));
 
         let (m_i_, v_, w_hat_) = Self::equivalent_matrices(mds, t, rounds_p);
         let opt_round_constants_ = Self::equivalent_round_constants(round_constants, mds, r, rounds_p);
-- 
2.43.0

