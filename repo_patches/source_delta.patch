From a6f9c01e1affcb313354aee7f1846bdbd9ae18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 01/18] fix: reject inner-product proofs whose R vector is not
 as long as L

verification_scalars zipped L_vec with R_vec, so surplus points in R_vec were
ignored and an altered proof still verified.
---
 bulletproofs/src/inner_product_proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..46f4ae5 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,11 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        // Every round has exactly one L and one R.
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From ef0f1a3337d043af3087cbaa550f981ff50a6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 02/18] fix: check the shape of a proof in the verifier in all
 build profiles

The number of T commitments, the unused T commitment and the absence of second
phase commitments next to vector commitments were only debug assertions: in
release builds a short T panicked, and the unused T and surplus T entries were
malleable; in debug builds a malformed proof aborted the verifier.
---
 bulletproofs/src/r1cs/proof.rs    | 2 +-
 bulletproofs/src/r1cs/verifier.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..09d7902 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -56,7 +56,7 @@ pub struct R1CSProof<C: AffineRepr> {
 }
 
 impl<C: AffineRepr> R1CSProof<C> {
-    fn missing_phase2_commitments(&self) -> bool {
+    pub(super) fn missing_phase2_commitments(&self) -> bool {
         self.A_I2.is_zero() && self.A_O2.is_zero() && self.S2.is_zero()
     }
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..ca16755 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,14 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // The proof is untrusted: it must have exactly the commitments the statement calls for.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::VerificationError);
+        }
+        // Second phase commitments are not supported together with vector commitments.
+        if ncomm > 0 && !proof.missing_phase2_commitments() {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
-- 
2.43.0


From 90892d952018d64e27ca8bcee9a50e1712882bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 03/18] fix: batch verification of proofs of different sizes

batch_verify took the size of the first proof for all: scalars of larger proofs
were cut off by zip and those of H were added to G, so batches of valid proofs
failed. An empty batch panicked.
---
 bulletproofs/src/r1cs/verifier.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index ca16755..3227eb0 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -742,14 +742,32 @@ pub fn batch_verify<C: AffineRepr>(
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
+    // The proofs may differ in size: align the scalars of G and H to those of the largest proof.
+    let padded_n = verification_tuples
+        .iter()
+        .map(|vt| (vt.proof_independent_scalars.len() - 2) / 2)
+        .max()
+        .unwrap_or(0);
+    let align = |mut scalars: Vec<C::ScalarField>| {
+        let n = (scalars.len() - 2) / 2;
+        let h_scalars = scalars.split_off(2 + n);
+        scalars.resize(2 + padded_n, C::ScalarField::zero());
+        scalars.extend(h_scalars);
+        scalars.resize(2 + 2 * padded_n, C::ScalarField::zero());
+        scalars
+    };
+
     let mut ver_iter = verification_tuples.into_iter();
-    let vt = ver_iter.next().unwrap();
+    let vt = match ver_iter.next() {
+        Some(vt) => vt,
+        // There is nothing to verify.
+        None => return Ok(()),
+    };
     let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
         vt.proof_dependent_points,
         vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
+        align(vt.proof_independent_scalars),
     );
-    let padded_n = (linear_combination.len() - 2) / 2;
 
     for mut vt in ver_iter {
         proof_points.append(&mut vt.proof_dependent_points);
@@ -762,8 +780,7 @@ pub fn batch_verify<C: AffineRepr>(
             .proof_dependent_scalars
             .into_iter()
             .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
+        let fps = align(vt.proof_independent_scalars)
             .into_iter()
             .map(|s| s * random_scalar);
 
-- 
2.43.0


From b5d906fbe2e585e98ac5cad37cf77bf1664db51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 04/18] fix: validate proofs, paths and pours that are decoded
 as part of a container

Containers decode their elements unchecked and then call Valid::check on them,
which did nothing for these types, so points off the curve were accepted.
---
 bulletproofs/src/inner_product_proof.rs | 3 ++-
 bulletproofs/src/r1cs/proof.rs          | 9 ++++++++-
 relations/src/coin.rs                   | 9 ++++++++-
 relations/src/curve_tree.rs             | 4 +++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 46f4ae5..775e179 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -390,7 +390,8 @@ impl<C: AffineRepr> InnerProductProof<C> {
 
 impl<C: AffineRepr> Valid for InnerProductProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.L_vec.check()?;
+        self.R_vec.check()
     }
 }
 impl<C: AffineRepr> CanonicalDeserialize for InnerProductProof<C> {
diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 09d7902..b5611c1 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -128,7 +128,14 @@ impl<C: AffineRepr> CanonicalSerialize for R1CSProof<C> {
 
 impl<C: AffineRepr> Valid for R1CSProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.A_I1.check()?;
+        self.A_O1.check()?;
+        self.S1.check()?;
+        self.A_I2.check()?;
+        self.A_O2.check()?;
+        self.S2.check()?;
+        self.T.check()?;
+        self.ipp_proof.check()
     }
 }
 impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..cc96689 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -356,7 +356,14 @@ impl<
     > Valid for Pour<L, P0, P1, C>
 {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.even_proof.check()?;
+        self.odd_proof.check()?;
+        self.randomized_path_0.check()?;
+        self.randomized_path_1.check()?;
+        self.pk0.check()?;
+        self.pk1.check()?;
+        self.minted_coin_commitment_0.check()?;
+        self.minted_coin_commitment_1.check()
     }
 }
 impl<
diff --git a/relations/src/curve_tree.rs b/relations/src/curve_tree.rs
index 2200c70..0acc5dd 100644
--- a/relations/src/curve_tree.rs
+++ b/relations/src/curve_tree.rs
@@ -226,7 +226,9 @@ impl<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> Valid
     for SelectAndRerandomizePath<L, P0, P1>
 {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.selected_commitment.check()?;
+        self.odd_commitments.check()?;
+        self.even_commitments.check()
     }
 }
 impl<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> CanonicalDeserialize
-- 
2.43.0


From 5689e1eb313eee508e5e36745fce50736b0753c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 05/18] fix: accept only the canonical encoding of an R1CS
 proof

Any phase flag other than 1 was read as 0, trailing bytes were ignored, and the
identity point has many encodings, so altered byte strings decoded to the same
proof and verified.
---
 bulletproofs/src/r1cs/proof.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index b5611c1..acba365 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -69,7 +69,13 @@ impl<C: AffineRepr> R1CSProof<C> {
     }
 
     pub fn from_bytes(slice: &[u8]) -> Result<R1CSProof<C>, R1CSError> {
-        Self::deserialize_compressed(slice).map_err(|_| R1CSError::FormatError)
+        let proof =
+            Self::deserialize_compressed(slice).map_err(|_| R1CSError::FormatError)?;
+        // A proof has only one encoding: no trailing bytes and no redundant representations.
+        if proof.to_bytes() != slice {
+            return Err(R1CSError::FormatError);
+        }
+        Ok(proof)
     }
 }
 
@@ -148,14 +154,14 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
         let A_O1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let S1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let flag = u8::deserialize_with_mode(&mut reader, compress, validate)?;
-        let (A_I2, A_O2, S2) = if flag == TWO_PHASE_COMMITMENTS {
-            (
+        let (A_I2, A_O2, S2) = match flag {
+            TWO_PHASE_COMMITMENTS => (
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
-            )
-        } else {
-            (C::zero(), C::zero(), C::zero())
+            ),
+            ONE_PHASE_COMMITMENTS => (C::zero(), C::zero(), C::zero()),
+            _ => return Err(SerializationError::InvalidData),
         };
         Ok(Self {
             A_I1,
-- 
2.43.0


From e3589d341d2761efd06223904cbdf80a4cd79aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 06/18] fix: constrain the first accumulator of a
 rerandomization to the looked-up table entry

---
 relations/src/rerandomize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..f00eeed 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -133,7 +133,12 @@ pub fn re_randomize<
         // Allocate coordinates for the accumulated witness
         let acc_i_x_lc: LinearCombination<F> = cs.allocate(acc_i_x).unwrap().into();
         let acc_i_y_lc: LinearCombination<F> = cs.allocate(acc_i_y).unwrap().into();
-        if i > 1 {
+        if i == 1 {
+            // The accumulator starts from the first table lookup:
+            // R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
+        } else {
             // Enforce addition constraint:
             // R_i = R_i-1 + (x_i, y_i)
             let prms = CurveAddition {
-- 
2.43.0


From eb944b2f7f17a41314032532a5eb9d7c17b438ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 07/18] fix: use checked additions for the windows of a
 rerandomization that can wrap around

---
 relations/src/rerandomize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index f00eeed..d590e6c 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -109,7 +109,7 @@ pub fn re_randomize<
                 } else {
                     None
                 };
-                let x_left_minus_x_right_inv = if i == m {
+                let x_left_minus_x_right_inv = if i + 1 >= m {
                     // compute x_l-x_r inverse for checked addition
                     Some(F::one() / (x_left - x_right))
                 } else {
@@ -150,7 +150,9 @@ pub fn re_randomize<
                 y_o: acc_i_y_lc.clone(),
                 delta,
             };
-            if i == m {
+            // Only the sums of the first m-2 windows are so small, compared to the next table
+            // entries, that they cannot meet (the negation of) one of them modulo the group order.
+            if i + 1 >= m {
                 // enforce checked curve addition
                 checked_curve_addition(cs, &prms, x_l_minus_x_r_inv);
             } else {
-- 
2.43.0


From 9c26858051c5b2d6f4370dbe595c801e7ea2f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 08/18] fix: multiply the linear coefficient by x in the curve
 equation

---
 relations/src/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..ec3946c 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,13 +11,13 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
+    // x^3 + A*x + B - y^2 = 0
     cs.constrain(
         LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
+            + x.scalar_mul(a)
             + b
             - y_squared,
     )
-- 
2.43.0


From 5e7e6d861d07d4250dc3e47f8f9c24f46404beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 09/18] fix: reject membership paths whose length is not the
 height of the tree in all build profiles

---
 relations/src/batched_curve_tree_verifier.rs | 10 +++++-----
 relations/src/curve_tree_verifier.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..aac2e07 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..471526f 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From 8e91887c9bedb1144bd2dd0b0531873998b510b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 10/18] fix: open the leaf of a spent coin with the dimension
 of a coin

---
 relations/src/coin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index cc96689..739ffaa 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -596,7 +596,8 @@ fn verify_spend_even<
     curve_tree: &CurveTree<L, 1, P0, P1>,
 ) -> Variable<P0::ScalarField> {
     commitments.even_verifier_gadget(even_verifier, sr_parameters, curve_tree);
-    let vars = even_verifier.commit_vec(L, commitments.get_rerandomized_leaf());
+    // a coin is a commitment to its value and its tag, committed with that dimension by the prover
+    let vars = even_verifier.commit_vec(2, commitments.get_rerandomized_leaf());
 
     // enforce equality of tag with hash of public key
     even_verifier.constrain(vars[1] - Coin::<P0, C>::pk_to_scalar(pk));
-- 
2.43.0


From 0e833606ea6455689025123ad0b6f375132c7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 11/18] fix: reject a transaction whose signatures are invalid

---
 relations/src/coin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index 739ffaa..a0e1331 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -672,7 +672,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        let valid_0 = Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -682,7 +682,8 @@ impl<
             },
         )
         .unwrap();
-        Schnorr::verify(
+        assert!(valid_0, "invalid signature of the first input");
+        let valid_1 = Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -692,6 +693,7 @@ impl<
             },
         )
         .unwrap();
+        assert!(valid_1, "invalid signature of the second input");
     }
 }
 
-- 
2.43.0


From 3d07daf1cdfdc61c3bdd216be14025ea75100d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 12/18] fix: reject a pour that spends one coin as both inputs

---
 relations/src/coin.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index a0e1331..7f2cd8b 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -500,6 +500,9 @@ impl<
         sr_parameters: &SelRerandParameters<P0, P1>,
         curve_tree: &CurveTree<L, 1, P0, P1>,
     ) -> (VerificationTuple<Affine<P0>>, VerificationTuple<Affine<P1>>) {
+        // a coin is identified by its rerandomized key, and can only be one of the inputs
+        assert!(self.pk0 != self.pk1, "both inputs spend the same coin");
+
         #[cfg(feature = "parallel")]
         let (spend_commitments_0, spend_commitments_1) = {
             // todo this might not be worth the overhead
-- 
2.43.0


From 82c57ec4d909188cfb97b41f069370d01f3b88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 13/18] fix: add the rerandomized sum of batched children to
 the transcript

---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..433e898 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomized sum of the children to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"sum_of_rerandomized", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From 88846a5ea5c568f50af433acb40042b98ee67817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 14/18] fix: let the compiler decide whether a prover may be
 moved to another thread

---
 bulletproofs/src/r1cs/constraint_system.rs | 2 +-
 bulletproofs/src/r1cs/prover.rs            | 7 ++-----
 bulletproofs/src/r1cs/verifier.rs          | 2 +-
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/src/r1cs/constraint_system.rs b/bulletproofs/src/r1cs/constraint_system.rs
index 8a20a23..2eb50a8 100644
--- a/bulletproofs/src/r1cs/constraint_system.rs
+++ b/bulletproofs/src/r1cs/constraint_system.rs
@@ -109,7 +109,7 @@ pub trait RandomizableConstraintSystem<F: Field>: ConstraintSystem<F> {
     /// ```
     fn specify_randomized_constraints<F2>(&mut self, callback: F2) -> Result<(), R1CSError>
     where
-        F2: 'static + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>;
+        F2: 'static + Send + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>;
 }
 
 /// Represents a constraint system in the second phase:
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..feeaef7 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -41,15 +41,12 @@ pub struct Prover<'g, T: BorrowMut<Transcript>, C: AffineRepr> {
     /// This list holds closures that will be called in the second phase of the protocol,
     /// when non-randomized variables are committed.
     deferred_constraints:
-        Vec<Box<dyn FnOnce(&mut RandomizingProver<'g, T, C>) -> Result<(), R1CSError>>>,
+        Vec<Box<dyn FnOnce(&mut RandomizingProver<'g, T, C>) -> Result<(), R1CSError> + Send>>,
 
     /// Index of a pending multiplier that's not fully assigned yet.
     pending_multiplier: Option<usize>,
 }
 
-// todo I assume this would be automatically implemented by the compiler if it did not have a a mutable borrow of a transcript
-unsafe impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Send for Prover<'g, T, C> {} // todo fix after refactor
-
 /// Separate struct to implement Drop trait for (for zeroing),
 /// so that compiler does not prohibit us from moving the Transcript out of `prove()`.
 #[derive(ZeroizeOnDrop)]
@@ -191,7 +188,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> RandomizableConstraintSystem<C
 
     fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
     where
-        F: 'static + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
+        F: 'static + Send + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
     {
         self.deferred_constraints.push(Box::new(callback));
         Ok(())
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 3227eb0..1d30653 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -162,7 +162,7 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> RandomizableConstraintSystem<C::Sc
 
     fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
     where
-        F: 'static + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
+        F: 'static + Send + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
     {
         self.deferred_constraints.push(Box::new(callback));
         Ok(())
-- 
2.43.0


From 77954990ca848b2f8e2dbc9b68d7c10108179e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 15/18] fix: announce the size of the R vector, not of the L
 vector twice, in a proof's encoded size

---
 bulletproofs/src/inner_product_proof.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 775e179..bed8dba 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -382,8 +382,9 @@ impl<C: AffineRepr> InnerProductProof<C> {
     pub fn serialized_size(&self, compress: Compress) -> usize {
         // size of the two scalars
         let scalars_size = self.a.serialized_size(compress) * 2;
-        // size of the 2 point vectors (should be equal)
-        let l_and_r_size = self.L_vec.serialized_size(compress) * 2;
+        // size of the 2 point vectors (equal in a valid proof, but a decoded one may differ)
+        let l_and_r_size =
+            self.L_vec.serialized_size(compress) + self.R_vec.serialized_size(compress);
         scalars_size + l_and_r_size
     }
 }
@@ -418,8 +419,8 @@ impl<C: AffineRepr> CanonicalSerialize for InnerProductProof<C> {
     fn serialized_size(&self, mode: Compress) -> usize {
         // size of the two scalars
         let scalars_size = self.a.serialized_size(mode) * 2;
-        // size of the 2 point vectors (should be equal)
-        let l_and_r_size = self.L_vec.serialized_size(mode) * 2;
+        // size of the 2 point vectors (equal in a valid proof, but a decoded one may differ)
+        let l_and_r_size = self.L_vec.serialized_size(mode) + self.R_vec.serialized_size(mode);
         scalars_size + l_and_r_size
     }
 
-- 
2.43.0


From f1092d8481ebd0ecfb44190902ca9ebc69988616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 16/18] fix: statements with more than 17 vector commitments
 panic for want of a transcript label

---
 bulletproofs/src/r1cs/prover.rs   | 2 +-
 bulletproofs/src/r1cs/verifier.rs | 2 +-
 bulletproofs/src/util.rs          | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index feeaef7..84834ef 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -1019,7 +1019,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             if d == op_degree {
                 continue;
             }
-            transcript.append_point(util::T_LABELS[d], td);
+            transcript.append_point(util::t_label(d), td);
         }
 
         let u = transcript.challenge_scalar::<C>(b"u");
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 1d30653..cfd2ae8 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -548,7 +548,7 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
                 continue;
             }
             // println!("{}", &proof.T[d]);
-            transcript.validate_and_append_point(util::T_LABELS[d], &proof.T[d])?;
+            transcript.validate_and_append_point(util::t_label(d), &proof.T[d])?;
         }
 
         let u = transcript.challenge_scalar::<C>(b"u");
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..4cfae7e 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -27,6 +27,12 @@ pub const T_LABELS: [&[u8]; 41] = [
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
 ];
 
+/// The transcript label of the commitment to the coefficient of degree `d` of t(X).
+/// Statements with many vector commitments exceed the table, their remaining commitments share a label.
+pub fn t_label(d: usize) -> &'static [u8] {
+    T_LABELS.get(d).copied().unwrap_or(b"T")
+}
+
 /// The general case for Vector CP.
 pub struct VecPoly<F: Field>(Vec<Vec<F>>);
 
-- 
2.43.0


From a318e00ac8c226021a3ef31630871ed042a3ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 17/18] fix: leaves of trees with more places than an index can
 count could not be shown

---
 relations/src/curve_tree.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve_tree.rs b/relations/src/curve_tree.rs
index 0acc5dd..9975429 100644
--- a/relations/src/curve_tree.rs
+++ b/relations/src/curve_tree.rs
@@ -346,9 +346,11 @@ impl<
     }
 
     pub fn child_index(&self, index: usize) -> usize {
-        let capacity = L.pow(self.height() as u32);
-        let child_capacity = L.pow((self.height() - 1) as u32);
-        (index % capacity) / child_capacity
+        // a tall tree has more places than an index can count, all counted ones are below its first child then
+        match L.checked_pow((self.height() - 1) as u32) {
+            Some(child_capacity) => (index / child_capacity) % L,
+            None => 0,
+        }
     }
 
     // Combine up to L child nodes of level d into a single level d+1 node.
-- 
2.43.0


From 44df2818ef02b138a328bc75e3d0ea215faf2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 18/18] fix: range proofs of more than 64 bits took the low
 bits of the value for its high ones

---
 relations/src/range_proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relations/src/range_proof.rs b/relations/src/range_proof.rs
index 625b14d..f9a9253 100644
--- a/relations/src/range_proof.rs
+++ b/relations/src/range_proof.rs
@@ -12,7 +12,7 @@ pub fn range_proof<F: Field, CS: ConstraintSystem<F>>(
     for i in 0..n {
         // Create low-level variables and add them to constraints
         let (a, b, o) = cs.allocate_multiplier(v_assignment.map(|q| {
-            let bit: u64 = (q >> i) & 1;
+            let bit: u64 = q.checked_shr(i as u32).unwrap_or(0) & 1;
             ((1 - bit).into(), bit.into())
         }))?;
 
-- 
2.43.0

