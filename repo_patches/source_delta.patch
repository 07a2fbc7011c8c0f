From 8afdebeef442734c90c812dea30ebbe58a13e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:26 +0000
Subject: [PATCH 01/30] fix: unpack field elements whose top limb is not full

bytes_from_field_elements dropped exactly one byte of each element's
limb-padded representation. For moduli such as a 298-bit one (5 limbs) the
remaining 39 bytes did not match the 37 packed by bytes_to_field_elements and
decoding panicked. Take the packed number of low bytes instead.
---
 utilities/src/conversion.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 84fa176..6d79a0f 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -224,23 +224,13 @@ where
 
     // for each base prime field element:
     // - convert to bytes
-    // - drop the trailing byte
+    // - drop the trailing byte (and the unused bytes of the top limb, if any)
     // - append bytes to result
     let mut result = Vec::with_capacity(result_capacity);
     for elem in elems {
         for primefield_elem in elem.to_base_prime_field_elements() {
             let primefield_bytes = primefield_elem.into_bigint().to_bytes_le();
-            let (_, primefield_bytes) = primefield_bytes
-                .split_last() // ignore the final byte of primefield_elem
-                .expect("prime field elem bytes should be non-empty");
-            assert_eq!(
-                primefield_bytes.len(),
-                primefield_bytes_len,
-                "invalid prime field elem bytes len, expect {}, found {}",
-                primefield_bytes_len,
-                primefield_bytes.len()
-            );
-            result.extend_from_slice(primefield_bytes);
+            result.extend_from_slice(&primefield_bytes[..primefield_bytes_len]);
         }
     }
 
-- 
2.43.0


From 5d1ab42414228b6668fafa5dc8ecdf15beec751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:26 +0000
Subject: [PATCH 02/30] fix: keep masked field conversion below the target
 modulus

fq_to_fr_with_mask kept bits/8 low bytes. When the target modulus size is a
multiple of 8 bits the kept value can exceed the modulus and is silently
reduced. Keep (bits - 1)/8 bytes, which is the same for all other sizes.
---
 utilities/src/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 6d79a0f..4f88dde 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -56,7 +56,7 @@ where
     T: PrimeField,
 {
     assert!(T::MODULUS_BIT_SIZE < F::MODULUS_BIT_SIZE);
-    let length = (T::MODULUS_BIT_SIZE >> 3) as usize;
+    let length = ((T::MODULUS_BIT_SIZE - 1) >> 3) as usize;
     // ensure that no mod reduction happened
     T::from_le_bytes_mod_order(&base.into_bigint().to_bytes_le()[0..length])
 }
-- 
2.43.0


From 6d305f3d0f00ae8cf67b9e71db0a3a79bcfff953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:26 +0000
Subject: [PATCH 03/30] fix: detect all reductions when switching fields

field_switching compared only the bytes both representations have. A source
element whose low bytes agree with the reduced value was accepted although
its high bytes were lost. Require the remaining source bytes to be zero.
---
 utilities/src/conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 4f88dde..e2fbb7b 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -78,6 +78,7 @@ where
     let bytes_rec = t.into_bigint().to_bytes_le();
     let length = min(bytes.len(), bytes_rec.len());
     assert_eq!(bytes_rec[0..length], bytes[0..length],);
+    assert!(bytes[length..].iter().all(|byte| *byte == 0));
     t
 }
 
-- 
2.43.0


From 2a16829eb66fd98139bdbac369acacc3e4a6f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 04/30] fix: refuse to commit to a polynomial one degree above
 the SRS

A polynomial with as many coefficients plus one as there are powers of g
passed the degree check. The MSM then dropped its leading coefficient, so
the commitment did not bind to it.
---
 pcs/src/univariate_kzg/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 7a60194..280f495 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -97,9 +97,9 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let commit_time =
             start_timer!(|| format!("Committing to polynomial of degree {} ", poly.degree()));
 
-        if poly.degree() > prover_param.powers_of_g.len() {
+        if poly.degree() >= prover_param.powers_of_g.len() {
             return Err(PCSError::InvalidParameters(format!(
-                "poly degree {} is larger than allowed {}",
+                "poly degree {} needs more than the {} powers in the SRS",
                 poly.degree(),
                 prover_param.powers_of_g.len()
             )));
-- 
2.43.0


From 1b4c645aacd8573b995cce235ac02b614a22e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 05/30] fix: compare input lengths in univariate batch
 verification

The inputs were zipped, so a shorter list silently limited what was
checked. An empty batch proof was accepted for any commitments.
---
 pcs/src/univariate_kzg/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 280f495..19f9bba 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -252,6 +252,19 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let check_time =
             start_timer!(|| format!("Checking {} evaluation proofs", multi_commitment.len()));
 
+        if multi_commitment.len() != points.len()
+            || multi_commitment.len() != values.len()
+            || multi_commitment.len() != batch_proof.len()
+        {
+            return Err(PCSError::InvalidParameters(format!(
+                "different numbers of commitments {}, points {}, values {} and proofs {}",
+                multi_commitment.len(),
+                points.len(),
+                values.len(),
+                batch_proof.len()
+            )));
+        }
+
         let mut total_c = <E::G1>::zero();
         let mut total_w = <E::G1>::zero();
 
-- 
2.43.0


From 8c2e23d2faa612da6ec42a23c8a19c362caef407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 06/30] fix: check the proof length in multilinear verification

A proof with a number of elements different from the point length reached
the pairing with operand lists of different lengths.
---
 pcs/src/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index 652d37e..073e548 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -381,6 +381,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if proof.proofs.len() != num_var {
+        return Err(PCSError::InvalidParameters(format!(
+            "proof length ({}) does not match point length ({})",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let h_mul = verifier_param.h.into_group().batch_mul(point);
-- 
2.43.0


From 5ceaf6ca360a20262a6e3aad9bd1dc776463e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 07/30] fix: commit to merged polynomials over the matching SRS
 level

Batch commitment always used the largest SRS level. A merged polynomial
that was too large lost its upper half. A smaller one was committed in a
way no opening could match.
---
 pcs/src/multilinear_kzg/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index 073e548..e643116 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -160,15 +160,24 @@ impl<E: Pairing> PolynomialCommitmentScheme for MultilinearKzgPCS<E> {
         let commit_timer = start_timer!(|| "multi commit");
         let poly = merge_polynomials(polys)?;
 
+        if prover_param.0.num_vars < poly.num_vars {
+            return Err(PCSError::InvalidParameters(format!(
+                "Merged poly length ({}) exceeds param limit ({})",
+                poly.num_vars, prover_param.0.num_vars
+            )));
+        }
+        let ignored = prover_param.0.num_vars - poly.num_vars;
         let scalars: Vec<_> = poly
             .to_evaluations()
             .iter()
             .map(|x| x.into_bigint())
             .collect();
 
-        let commitment =
-            E::G1::msm_bigint(&prover_param.0.powers_of_g[0].evals, scalars.as_slice())
-                .into_affine();
+        let commitment = E::G1::msm_bigint(
+            &prover_param.0.powers_of_g[ignored].evals,
+            scalars.as_slice(),
+        )
+        .into_affine();
 
         end_timer!(commit_timer);
         Ok(Commitment(commitment))
-- 
2.43.0


From d7d7d2e944e2159fe0c2dda4bbd7f2df20f3621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 08/30] fix: return an error when merging no polynomials

An empty list panicked on its first element.
---
 pcs/src/multilinear_kzg/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pcs/src/multilinear_kzg/util.rs b/pcs/src/multilinear_kzg/util.rs
index 7d79b3e..3d5b60d 100644
--- a/pcs/src/multilinear_kzg/util.rs
+++ b/pcs/src/multilinear_kzg/util.rs
@@ -134,7 +134,14 @@ pub fn get_batched_nv(num_var: usize, polynomials_len: usize) -> usize {
 pub fn merge_polynomials<F: PrimeField>(
     polynomials: &[MLE<F>],
 ) -> Result<DenseMultilinearExtension<F>, PCSError> {
-    let nv = polynomials[0].num_vars();
+    let nv = match polynomials.first() {
+        Some(poly) => poly.num_vars(),
+        None => {
+            return Err(PCSError::InvalidParameters(
+                "no polynomial to merge".to_string(),
+            ))
+        },
+    };
     for poly in polynomials.iter() {
         if nv != poly.num_vars() {
             return Err(PCSError::InvalidParameters(
-- 
2.43.0


From 54cef4b10636d73fd7b040c4eab6105d72f971fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:03 +0000
Subject: [PATCH 09/30] fix: check the verifier degree against the G1 powers
 when trimming

The verifier parameters also hold powers of g. A verifier degree above
their number panicked.
---
 pcs/src/univariate_kzg/srs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcs/src/univariate_kzg/srs.rs b/pcs/src/univariate_kzg/srs.rs
index 38a9bf0..d4e4066 100644
--- a/pcs/src/univariate_kzg/srs.rs
+++ b/pcs/src/univariate_kzg/srs.rs
@@ -108,6 +108,13 @@ impl<E: Pairing> StructuredReferenceString for UnivariateUniversalParams<E> {
                 verifier_supported_degree,
             )));
         }
+        if self.powers_of_g.len() <= verifier_supported_degree {
+            return Err(PCSError::InvalidParameters(ark_std::format!(
+                "Largest supported degree by the SRS is: {}, but requested for the verifier: {}",
+                self.powers_of_g.len() - 1,
+                verifier_supported_degree,
+            )));
+        }
         if verifier_supported_degree == 0 {
             return Err(PCSError::InvalidParameters(
                 "Verifier supported degree should be larger than zero".to_string(),
-- 
2.43.0


From 140fa65964212522f760430cb7372be7bbd4d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:56 +0000
Subject: [PATCH 10/30] fix: Keccak256 Merkle tree alias names the hash and
 node types in order

---
 merkle_tree/src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle_tree/src/prelude.rs b/merkle_tree/src/prelude.rs
index bed1c36..5527a71 100644
--- a/merkle_tree/src/prelude.rs
+++ b/merkle_tree/src/prelude.rs
@@ -197,7 +197,7 @@ pub type SHA3MerkleTree<E> = MerkleTree<E, Sha3Digest, u64, 3, Sha3Node>;
 pub type LightWeightSHA3MerkleTree<E> = LightWeightMerkleTree<E, Sha3Digest, u64, 3, Sha3Node>;
 
 /// Merkle tree using keccak256 hash
-pub type Keccak256MerkleTree<E> = MerkleTree<E, Keccak256Node, u64, 3, Keccak256Digest>;
+pub type Keccak256MerkleTree<E> = MerkleTree<E, Keccak256Digest, u64, 3, Keccak256Node>;
 /// Light weight merkle tree using Keccak256 hash
 pub type LightWeightKeccak256MerkleTree<E> =
     LightWeightMerkleTree<E, Keccak256Digest, u64, 3, Keccak256Node>;
-- 
2.43.0


From 8dbd305fc975211dcaf67efc0fcedb1548a3e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:56 +0000
Subject: [PATCH 11/30] fix: forgetting an absent leaf returns an absence proof
 of full height

---
 merkle_tree/src/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 8a1a0b5..4faa3f0 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -460,7 +460,7 @@ where
         match self {
             MerkleNode::Empty => (
                 Arc::new(self.clone()),
-                LookupResult::NotFound(MerkleTreeProof(vec![])),
+                LookupResult::NotFound(MerkleTreeProof(vec![vec![]; height])),
             ),
             MerkleNode::Branch { value, children } => {
                 let mut children = children.clone();
-- 
2.43.0


From dc44cd8ed602155669e42f6e3f4f4e0753c3c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:56 +0000
Subject: [PATCH 12/30] fix: remembering a leaf refuses proofs whose height is
 not that of the tree

---
 merkle_tree/src/macros.rs                | 5 +++++
 merkle_tree/src/universal_merkle_tree.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/merkle_tree/src/macros.rs b/merkle_tree/src/macros.rs
index 85f102b..1470e60 100644
--- a/merkle_tree/src/macros.rs
+++ b/merkle_tree/src/macros.rs
@@ -245,6 +245,11 @@ macro_rules! impl_forgetable_merkle_tree_scheme {
                 let pos = pos.borrow();
                 let element = element.borrow();
                 let proof = proof.borrow();
+                if proof.height() != self.height {
+                    return Err(MerkleTreeError::InconsistentStructureError(
+                        "Malformed proof".to_string(),
+                    ));
+                }
                 if Self::verify(&self.commitment(), pos, element, proof)?.is_err() {
                     Err(MerkleTreeError::InconsistentStructureError(
                         "Wrong proof".to_string(),
diff --git a/merkle_tree/src/universal_merkle_tree.rs b/merkle_tree/src/universal_merkle_tree.rs
index 68d5806..7f64ad5 100644
--- a/merkle_tree/src/universal_merkle_tree.rs
+++ b/merkle_tree/src/universal_merkle_tree.rs
@@ -169,6 +169,11 @@ where
     ) -> Result<(), MerkleTreeError> {
         let pos = pos.borrow();
         let proof = proof.borrow();
+        if proof.height() != self.height {
+            return Err(MerkleTreeError::InconsistentStructureError(
+                "Malformed proof".to_string(),
+            ));
+        }
         if Self::non_membership_verify(&self.commitment(), pos, proof)?.is_err() {
             Err(MerkleTreeError::InconsistentStructureError(
                 "Wrong proof".to_string(),
-- 
2.43.0


From 219acb0e00c7b5bc0f4c2de2d4b3b61eeed25412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:29 +0000
Subject: [PATCH 13/30] fix: range proofs are refused unless their bounds fit a
 run of consecutive leaves

---
 merkle_tree/src/internal.rs | 42 +++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 4faa3f0..691dc8b 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -192,6 +192,20 @@ pub struct MerkleTreeRangeProof<T: NodeValue> {
     pub rbound: Vec<Vec<T>>,
 }
 
+/// Whether the leaf at `next` directly follows the leaf at `path`. Both are
+/// traversal paths of the same height, lowest level first.
+fn is_next_path<const ARITY: usize>(path: &[usize], next: &[usize]) -> bool {
+    let mut carry = 1;
+    for (branch, next_branch) in path.iter().zip(next.iter()) {
+        let sum = branch + carry;
+        if *next_branch != sum % ARITY {
+            return false;
+        }
+        carry = sum / ARITY;
+    }
+    carry == 0
+}
+
 /// Verify a merkle range proof
 /// * `commitment` - a merkle tree commitment
 /// * `indices` - zero-based indices of the leaves in the tree
@@ -216,6 +230,34 @@ where
             "Indices and elements must have the same length".to_string(),
         ));
     }
+    // The bounds must be exactly the siblings around the first and the last leaf
+    // of a run of consecutive leaves.
+    let height = proof.lbound.len();
+    let paths = indices
+        .iter()
+        .map(|index| -> Vec<usize> {
+            let index: &I = index.borrow();
+            index.to_traversal_path(height)
+        })
+        .collect::<Vec<_>>();
+    let well_formed = match (paths.first(), paths.last()) {
+        (Some(first), Some(last)) => {
+            proof.rbound.len() == height
+                && (0..height).all(|i| {
+                    proof.lbound[i].len() == first[i]
+                        && proof.rbound[i].len() + last[i] + 1 == ARITY
+                })
+                && paths
+                    .windows(2)
+                    .all(|pair| is_next_path::<ARITY>(&pair[0], &pair[1]))
+        },
+        _ => false,
+    };
+    if !well_formed {
+        return Err(MerkleTreeError::InconsistentStructureError(
+            "Malformed proof".to_string(),
+        ));
+    }
     let mut values = indices
         .iter()
         .zip(elements.iter())
-- 
2.43.0


From db72ce3cd361b9476e176f9b5a772964d65c8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:19 +0000
Subject: [PATCH 14/30] fix: refuse PLONK proofs whose number of commitments or
 evaluations does not fit the key

---
 plonk/src/proof_system/verifier.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/plonk/src/proof_system/verifier.rs b/plonk/src/proof_system/verifier.rs
index 7d1b3cb..231a898 100644
--- a/plonk/src/proof_system/verifier.rs
+++ b/plonk/src/proof_system/verifier.rs
@@ -89,6 +89,13 @@ where
             ))
             .into());
         }
+        if batch_proof.wires_poly_comms_vec.len() != verify_keys.len()
+            || batch_proof.poly_evals_vec.len() != verify_keys.len()
+            || batch_proof.plookup_proofs_vec.len() != verify_keys.len()
+            || batch_proof.split_quot_poly_comms.len() != verify_keys[0].sigma_comms.len()
+        {
+            return Err(ParameterError("malformed batch proof".to_string()).into());
+        }
         for (i, (&pub_input, &vk)) in public_inputs.iter().zip(verify_keys.iter()).enumerate() {
             if pub_input.len() != vk.num_inputs {
                 return Err(ParameterError(
@@ -111,6 +118,18 @@ where
                 ))
                 .into());
             }
+            let num_wire_types = vk.sigma_comms.len();
+            if batch_proof.wires_poly_comms_vec[i].len() != num_wire_types
+                || batch_proof.poly_evals_vec[i].wires_evals.len() != num_wire_types
+                || batch_proof.poly_evals_vec[i].wire_sigma_evals.len() + 1 != num_wire_types
+                || batch_proof.plookup_proofs_vec[i]
+                    .as_ref()
+                    .is_some_and(|proof_lkup| proof_lkup.h_poly_comms.len() != 2)
+            {
+                return Err(
+                    ParameterError(format!("malformed proof for the {i}-th instance")).into(),
+                );
+            }
         }
 
         // compute challenges and evaluations
-- 
2.43.0


From 9109f815a83893c174ed10bd3314db0f8cc79057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:19 +0000
Subject: [PATCH 15/30] fix: refuse batches that mix PLONK keys with and
 without lookup

---
 plonk/src/proof_system/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plonk/src/proof_system/verifier.rs b/plonk/src/proof_system/verifier.rs
index 231a898..a41bdd7 100644
--- a/plonk/src/proof_system/verifier.rs
+++ b/plonk/src/proof_system/verifier.rs
@@ -109,6 +109,11 @@ where
                 ))
                 .into());
             }
+            if vk.plookup_vk.is_some() != verify_keys[0].plookup_vk.is_some() {
+                return Err(
+                    ParameterError("inconsistent verification key types".to_string()).into(),
+                );
+            }
             if vk.domain_size != self.domain.size() {
                 return Err(ParameterError(format!(
                     "the domain size {} of the {}-th verification key is different from {}",
-- 
2.43.0


From b4e3b397977536ffd3092dd0b2c27b720f0498ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:34 +0000
Subject: [PATCH 16/30] fix: making a variable public refuses variables that do
 not exist

---
 relation/src/constraint_system.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index e9aa8a4..4e37095 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -671,6 +671,7 @@ impl<F: FftField> Circuit<F> for PlonkCircuit<F> {
 
     fn set_variable_public(&mut self, var: Variable) -> Result<(), CircuitError> {
         self.check_finalize_flag(false)?;
+        self.check_var_bound(var)?;
         self.pub_input_gate_ids.push(self.num_gates());
 
         // Create an io gate that forces `witness[var] = public_input`.
-- 
2.43.0


From 724dece07c6acf847b7b88048473f4be55526e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:37 +0000
Subject: [PATCH 17/30] fix: merging circuits without public inputs is an error
 instead of a panic

---
 relation/src/constraint_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index 4e37095..b85dfe5 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -1272,12 +1272,12 @@ impl<F: PrimeField> PlonkCircuit<F> {
                 other.num_inputs()
             )));
         }
-        if self.pub_input_gate_ids[0] != 0 {
+        if self.pub_input_gate_ids.first() != Some(&0) {
             return Err(ParameterError(
                 "the first circuit is not type A".to_string(),
             ));
         }
-        if other.pub_input_gate_ids[0] != other.eval_domain_size()? - 1 {
+        if other.pub_input_gate_ids.first() != Some(&(other.eval_domain_size()? - 1)) {
             return Err(ParameterError(
                 "the second circuit is not type B".to_string(),
             ));
-- 
2.43.0


From aff44c297153a45f74eca766cf4796c1a54c53e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:37 +0000
Subject: [PATCH 18/30] fix: rule out non-canonical representations for all
 lengths that allow them

---
 relation/src/gadgets/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index e3d0fc9..454e947 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -128,7 +128,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // and when MODULUS < 2^MODULUS_BIT_SIZE (e.g. p=17, log2(p) = 5), then we need
         // to rule out non-canonical representation of field elements (e.g.
         // avoid bit-wise 18 to represent 1 mod 17) by making sure its always < MODULUS
-        if bit_len == F::MODULUS_BIT_SIZE as usize {
+        if bit_len >= F::MODULUS_BIT_SIZE as usize {
             self.binary_decomposition_gate_with_canonical_check(a_bits_le.clone(), a)?;
         } else {
             self.binary_decomposition_gate(a_bits_le.clone(), a)?;
-- 
2.43.0


From 6313f7eb619e900dfdad1f47b46ed5aa420d8a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:37 +0000
Subject: [PATCH 19/30] fix: every variable is in a range that covers the field

---
 relation/src/gadgets/range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index 454e947..38d5991 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -29,6 +29,9 @@ impl<F: PrimeField> PlonkCircuit<F> {
     pub fn is_in_range(&mut self, a: Variable, bit_len: usize) -> Result<BoolVar, CircuitError> {
         let a_bit_le: Vec<BoolVar> = self.unpack(a, F::MODULUS_BIT_SIZE as usize)?;
         let a_bit_le: Vec<Variable> = a_bit_le.into_iter().map(|b| b.into()).collect();
+        if bit_len >= a_bit_le.len() {
+            return Ok(self.true_var());
+        }
         // a is in range if and only if the bits in `a_bit_le[bit_len..]` are all
         // zeroes.
         let higher_bit_sum = self.sum(&a_bit_le[bit_len..])?;
-- 
2.43.0


From 23f2432617a9b7a1c2c01303dc60f6e4a45d09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:37 +0000
Subject: [PATCH 20/30] fix: refuse lookups in circuits that do not support
 them

---
 relation/src/gadgets/ultraplonk/lookup_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relation/src/gadgets/ultraplonk/lookup_table.rs b/relation/src/gadgets/ultraplonk/lookup_table.rs
index 7210d53..22919e1 100644
--- a/relation/src/gadgets/ultraplonk/lookup_table.rs
+++ b/relation/src/gadgets/ultraplonk/lookup_table.rs
@@ -23,6 +23,9 @@ impl<F: PrimeField> PlonkCircuit<F> {
         lookup_vars: &[(Variable, Variable, Variable)],
         table_vars: &[(Variable, Variable)],
     ) -> Result<(), CircuitError> {
+        if !self.support_lookup() {
+            return Err(CircuitError::LookupUnsupported);
+        }
         for lookup_var in lookup_vars.iter() {
             self.check_var_bound(lookup_var.0)?;
             self.check_var_bound(lookup_var.1)?;
-- 
2.43.0


From 16ec434ea0622b7d5654739890c7beb8ce1009ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:52 +0000
Subject: [PATCH 21/30] fix: place every lookup gate in the slots before the
 last one

---
 relation/src/constraint_system.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index b85dfe5..b9215d5 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -844,22 +844,19 @@ impl<F: FftField> PlonkCircuit<F> {
             }
         }
         if self.support_lookup() {
-            // move lookup gates to the rear, the relative order of the lookup gates
-            // should not change
+            // move lookup gates to the rear
             let n = self.eval_domain.size();
             // be careful that we can't put a lookup gates at the very last slot.
-            let mut cur_gate_id = n - 2;
-            for &(table_gate_id, table_size) in self.table_gate_ids.iter().rev() {
-                for gate_id in (table_gate_id..table_gate_id + table_size).rev() {
-                    if gate_id < cur_gate_id {
-                        // Swap gate types
-                        self.gates.swap(gate_id, cur_gate_id);
-                        // Swap wire variables
-                        for j in 0..GATE_WIDTH + 1 {
-                            self.wire_variables[j].swap(gate_id, cur_gate_id);
-                        }
-                        cur_gate_id -= 1;
-                    }
+            let rear = n - 1 - self.num_table_elems..n - 1;
+            let is_lookup: Vec<bool> = self.q_lookup().iter().map(|q| !q.is_zero()).collect();
+            let misplaced = (0..n).filter(|i| is_lookup[*i] && !rear.contains(i));
+            let free = rear.clone().filter(|i| !is_lookup[*i]);
+            for (gate_id, rear_gate_id) in misplaced.zip(free) {
+                // Swap gate types
+                self.gates.swap(gate_id, rear_gate_id);
+                // Swap wire variables
+                for j in 0..GATE_WIDTH + 1 {
+                    self.wire_variables[j].swap(gate_id, rear_gate_id);
                 }
             }
         }
-- 
2.43.0


From 79f8c9706e9ab68b78ca6775cb998fb20f0718a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:55 +0000
Subject: [PATCH 22/30] fix: refuse AEAD nonces of the wrong length when
 deserializing instead of panicking

---
 aead/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aead/src/lib.rs b/aead/src/lib.rs
index 106a0d2..de1851f 100644
--- a/aead/src/lib.rs
+++ b/aead/src/lib.rs
@@ -226,6 +226,9 @@ impl<'de> Deserialize<'de> for Nonce {
             where
                 E: serde::de::Error,
             {
+                if v.len() != XNonce::default().len() {
+                    return Err(E::invalid_length(v.len(), &self));
+                }
                 Ok(Nonce(*XNonce::from_slice(&v)))
             }
 
@@ -236,6 +239,9 @@ impl<'de> Deserialize<'de> for Nonce {
                 let bytes: Vec<u8> = seq
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(0, &self))?;
+                if bytes.len() != XNonce::default().len() {
+                    return Err(serde::de::Error::invalid_length(bytes.len(), &self));
+                }
                 Ok(Nonce(*XNonce::from_slice(&bytes)))
             }
         }
-- 
2.43.0


From e45e8d1d1909b3bc45736ab4477323f0f20b0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:55 +0000
Subject: [PATCH 23/30] fix: read the AEAD nonce byte by byte from formats that
 encode bytes as a sequence

---
 aead/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aead/src/lib.rs b/aead/src/lib.rs
index de1851f..b62fe7f 100644
--- a/aead/src/lib.rs
+++ b/aead/src/lib.rs
@@ -236,9 +236,10 @@ impl<'de> Deserialize<'de> for Nonce {
             where
                 A: serde::de::SeqAccess<'de>,
             {
-                let bytes: Vec<u8> = seq
-                    .next_element()?
-                    .ok_or_else(|| serde::de::Error::invalid_length(0, &self))?;
+                let mut bytes: Vec<u8> = Vec::new();
+                while let Some(byte) = seq.next_element()? {
+                    bytes.push(byte);
+                }
                 if bytes.len() != XNonce::default().len() {
                     return Err(serde::de::Error::invalid_length(bytes.len(), &self));
                 }
-- 
2.43.0


From 843d1656dd411059d810ea16f5fb81a5d457dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:58 +0000
Subject: [PATCH 24/30] fix: return an error for ElGamal ciphertexts whose
 ephemeral key is not a valid point

---
 elgamal/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgamal/src/lib.rs b/elgamal/src/lib.rs
index ab5f34c..9c47c27 100644
--- a/elgamal/src/lib.rs
+++ b/elgamal/src/lib.rs
@@ -146,7 +146,12 @@ where
                 "At least 2 scalars in length for ciphertext".to_string(),
             ));
         }
-        let key = Affine::new(scalars[0], scalars[1]);
+        let key = Affine::new_unchecked(scalars[0], scalars[1]);
+        if !key.is_on_curve() || !key.is_in_correct_subgroup_assuming_on_curve() {
+            return Err(ParameterError(
+                "The ephemeral key is not in the prime order subgroup of the curve".to_string(),
+            ));
+        }
 
         let ephemeral = EncKey {
             key: key.into_group(),
-- 
2.43.0


From f5a912f85bdc83c429b7e7986801736b6da8b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:26 +0000
Subject: [PATCH 25/30] fix: constrain the parts of a truncation that have no
 bits to zero

---
 relation/src/gadgets/arithmetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/relation/src/gadgets/arithmetic.rs b/relation/src/gadgets/arithmetic.rs
index 8ce3c99..7684d9f 100644
--- a/relation/src/gadgets/arithmetic.rs
+++ b/relation/src/gadgets/arithmetic.rs
@@ -472,6 +472,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if bit_length_lookup_component != 0 {
             self.range_gate_with_lookup(b1_var, bit_length_lookup_component)?;
+        } else {
+            self.enforce_constant(b1_var, F::zero())?;
         }
 
         // (7) b2 < 2^bit_length_non_lookup_range
@@ -479,6 +481,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if bit_length_non_lookup_range != 0 {
             self.enforce_in_range(b2_var, bit_length_non_lookup_range)?;
+        } else {
+            self.enforce_constant(b2_var, F::zero())?;
         }
 
         // (8) z1 < 2^delta_length_lookup_component
@@ -486,6 +490,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if delta_length_lookup_component != 0 {
             self.range_gate_with_lookup(z1_var, delta_length_lookup_component)?;
+        } else {
+            self.enforce_constant(z1_var, F::zero())?;
         }
 
         // (9) z2 < 2^delta_length_non_lookup_range
@@ -493,6 +499,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if delta_length_non_lookup_range != 0 {
             self.enforce_in_range(z2_var, delta_length_non_lookup_range)?;
+        } else {
+            self.enforce_constant(z2_var, F::zero())?;
         }
 
         Ok(())
-- 
2.43.0


From 771efb73d0c113fc16fcf5107e522f67cda0bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:21 +0000
Subject: [PATCH 26/30] fix: bound the highest window of a scalar in the lookup
 multi-scalar multiplication

---
 relation/src/gadgets/ecc/msm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relation/src/gadgets/ecc/msm.rs b/relation/src/gadgets/ecc/msm.rs
index a21a1b6..552053b 100644
--- a/relation/src/gadgets/ecc/msm.rs
+++ b/relation/src/gadgets/ecc/msm.rs
@@ -333,6 +333,12 @@ where
     // create circuit
     let range_size = F::from((1 << c) as u32);
     circuit.decomposition_gate(decomposed_scalar_vars.clone(), scalar_var, range_size)?;
+    // Without a bound of its own on the highest window, the windows could have as
+    // many bits as the field and also represent the scalar plus the modulus.
+    let top_bits = scalar_bit_length - (m - 1) * c;
+    if top_bits < c {
+        circuit.enforce_in_range(decomposed_scalar_vars[m - 1], top_bits)?;
+    }
 
     Ok(decomposed_scalar_vars)
 }
-- 
2.43.0


From d0a46755beafb1683c6beaff5a3081e8e166e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:47 +0000
Subject: [PATCH 27/30] fix: include the incoming carry when computing carries
 of emulated additions

---
 relation/src/gadgets/emulated.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index 10486ba..dea1bb0 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -449,8 +449,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether a + b = add_no_mod_limbs
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, &b.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + self.witness(*b)?) / &b_pow);
+            let sum = self.witness(*a)? + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -465,8 +465,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(modulus_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let sum = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -532,8 +532,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether a + b = add_no_mod_limbs
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, b_limbs, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + b) / &b_pow);
+            let sum = self.witness(*a)? + b + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -548,8 +548,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(q_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let sum = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
-- 
2.43.0


From 190c51f09f18e05ca8e30020c8f61b0b8d288638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:47 +0000
Subject: [PATCH 28/30] fix: carry nothing out of the highest limb of an
 emulated addition

---
 relation/src/gadgets/emulated.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index dea1bb0..493e002 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -461,6 +461,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -475,6 +476,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
+        self.enforce_constant(carry_out, F::zero())?;
         Ok(())
     }
 
@@ -544,6 +546,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -558,6 +561,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
+        self.enforce_constant(carry_out, F::zero())?;
         Ok(())
     }
 
-- 
2.43.0


From 0c8f342e0bfd7011b4ffb482010d9d0157191201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:47 +0000
Subject: [PATCH 29/30] fix: make the emulated sum of inverse points, and no
 other sum, infinite

---
 relation/src/gadgets/ecc/emulated/short_weierstrass.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
index da6c337..991dc9a 100644
--- a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
+++ b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
@@ -211,8 +211,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // is 1 iff both p0 and p1 are not infinity
         let non_infinity_mark = self.logic_neg(infinity_mark)?;
 
-        // Case 2: p2 is infinity, while p0 and p1 are not.
-        // inf0 == 1 || inf1 == 1 || inf2 == 0 || x0 != x1 || (y0 == y1 && y0 != 0)
+        // Case 2: p0 and p1 are not infinity; p2 is infinity iff they are inverse.
+        // inf0 == 1 || inf1 == 1 || (inf2 == 0) == (x0 != x1 || (y0 == y1 && y0 != 0))
         let non_inf_p2 = self.logic_neg(p2.2)?;
         let eq_x0_x1 = self.is_emulated_var_equal(&p0.0, &p1.0)?;
         let neq_x0_x1 = self.logic_neg(eq_x0_x1)?;
@@ -221,7 +221,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let not_y0_zero = self.logic_neg(is_y0_zero)?;
         let t = self.logic_and(eq_y0_y1, not_y0_zero)?;
         let t = self.logic_or(neq_x0_x1, t)?;
-        let t = self.logic_or(non_inf_p2, t)?;
+        let t = self.is_equal(non_inf_p2.0, t.0)?;
         self.logic_or_gate(infinity_mark, t)?;
 
         // Case 3: point doubling
-- 
2.43.0


From 9a54caf792aa7938c2dd1194bf69d5a0307cc977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:33 +0000
Subject: [PATCH 30/30] fix: refuse splits for which emulated products wrap
 around the native modulus

---
 relation/src/gadgets/ultraplonk/mod_arith.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/relation/src/gadgets/ultraplonk/mod_arith.rs b/relation/src/gadgets/ultraplonk/mod_arith.rs
index 166d3f2..3d28682 100644
--- a/relation/src/gadgets/ultraplonk/mod_arith.rs
+++ b/relation/src/gadgets/ultraplonk/mod_arith.rs
@@ -505,6 +505,13 @@ impl<F: PrimeField> PlonkCircuit<F> {
                 p.m
             )));
         }
+        // the equations below must not wrap around the native modulus
+        if 2 * p.m + range_bit_len + 1 >= F::MODULUS_BIT_SIZE as usize {
+            return Err(ParameterError(format!(
+                "splitting parameter m = {} is too large for the native field",
+                p.m
+            )));
+        }
 
         // Witness computation
         //
@@ -687,6 +694,13 @@ impl<F: PrimeField> PlonkCircuit<F> {
                 p.m
             )));
         }
+        // the equations below must not wrap around the native modulus
+        if 2 * p.m + range_bit_len + 1 >= F::MODULUS_BIT_SIZE as usize {
+            return Err(ParameterError(format!(
+                "splitting parameter m = {} is too large for the native field",
+                p.m
+            )));
+        }
 
         // Witness computation
         //
-- 
2.43.0

