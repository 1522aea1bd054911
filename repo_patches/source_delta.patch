From e70a8b6031207edcb42ec3b9a781f157d1787c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 01/23] verif: hooks under cfg(zkp_verif) for transcripts,
 Merkle trees and the node hash

---
 fri/src/lib.rs         |  6 ++++++
 fri/src/merkle_tree.rs | 18 ++++++++++++++++++
 plonk/src/lib.rs       |  3 +++
 3 files changed, 27 insertions(+)

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..5aca4df 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -1,7 +1,13 @@
 pub mod fiat_shamir;
 pub mod fields;
 mod fri_layer;
+#[cfg(not(zkp_verif))]
 mod hasher;
+#[cfg(zkp_verif)]
+pub mod hasher;
+#[cfg(not(zkp_verif))]
 mod merkle_tree;
+#[cfg(zkp_verif)]
+pub mod merkle_tree;
 pub mod prover;
 pub mod verifier;
diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..88d206d 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,24 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+#[cfg(zkp_verif)]
+impl<F: PrimeField> MerkleProof<F> {
+    /// Verification hook: the private parts of the proof (sibling hashes and root).
+    pub fn verif_parts(&self) -> (Vec<F>, F) {
+        (self.hash_proof.clone(), self.root)
+    }
+
+    /// Verification hook: assembles a proof from arbitrary parts.
+    pub fn verif_from_parts(index: usize, leaf_val: F, hash_proof: Vec<F>, root: F) -> Self {
+        Self {
+            index,
+            leaf_val,
+            hash_proof,
+            root,
+        }
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index e8b9714..0f58eb1 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -1,4 +1,7 @@
+#[cfg(not(zkp_verif))]
 mod challenge;
+#[cfg(zkp_verif)]
+pub mod challenge;
 pub mod circuit;
 pub mod common_preprocessed_input;
 pub mod compiled_circuit;
-- 
2.43.0


From bad2c0b851567e0c6e471ddcf136f373690283f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/23] fix: kzg: adding two openings adds both witness points

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..c5c6059 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From 84a15be31131c32e53d1e203e6126d2811e06275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 03/23] fix: kzg: open the zero polynomial instead of panicking

---
 kzg/src/scheme.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..50b5d16 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -108,12 +108,9 @@ impl KzgScheme {
     pub fn open(&self, polynomial: &Poly, z: impl Into<Fr>) -> KzgOpening {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
-        let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
-        // quotient polynomial
-        let quotient_poly = &new_poly / &root;
+        // quotient polynomial; the remainder it leaves out is the evaluation at z
+        let quotient_poly = polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
 
         KzgOpening(opening, evaluation_at_z)
@@ -131,10 +128,8 @@ impl KzgScheme {
     /// The opening at the specified point.
     pub fn open_vector(&self, coeffs: &[ScalarField], z: impl Into<Fr>) -> KzgOpening {
         let z = z.into();
-        let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
+        let polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From 332352ec0da5bd62224e7e34830d72010cbf6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 04/23] fix: plonk: the prover derives its challenges with the
 hash the caller chose

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 52d624d151dedaf3c5f456559676c79a3b0e0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 05/23] fix: plonk: circuits of a single gate can be compiled

---
 plonk/src/circuit.rs                               | 4 +---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..b334028 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -147,9 +147,7 @@ impl Circuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
-
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From fa0e64962e933ec7e29e082c2ef6399c0cf3eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 06/23] fix: plonk: a dummy gate keeps its row in the
 preprocessing circuit

---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 9328343..7d853ee 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -97,9 +97,6 @@ impl CPICircuit {
         result.insert(Self::VEC_PI, vec![]);
 
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From 46cc132d10bea8ba94615eb3d39acb76eeb45951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 07/23] fix: plonk: the verifier does not overflow on a proof
 claiming a huge degree

---
 plonk/src/verifier.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..ae5c00f 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -90,13 +90,12 @@ pub fn verify<T: Digest + Default>(
             * proof.bar_z_w,
     );
 
+    // zeta^(degree + 1), without overflowing for whatever degree the proof claims
+    let t_shift =
+        evaluation_challenge.pow(BigInt::new([proof.degree as u64])) * evaluation_challenge;
     let d_line4 = (proof.t_lo_commit
-        + proof
-            .t_mid_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 + 1])))
-        + proof
-            .t_hi_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 * 2 + 2]))))
+        + proof.t_mid_commit.mul(t_shift)
+        + proof.t_hi_commit.mul(t_shift.square()))
     .mul(z_h_e);
 
     let d = d_line1 + d_line2 - d_line3 - d_line4;
-- 
2.43.0


From 23e39e5e1796411f5115a8b3a2172737bea2b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 08/23] fix: plonk: bind the circuit and its public inputs into
 the challenges

---
 plonk/src/prover.rs   |  4 ++--
 plonk/src/verifier.rs | 36 +++++++++++++++++++++++++++++-------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..a522252 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -14,10 +14,10 @@ use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
 use kzg::srs::Srs;
 
-use crate::challenge::ChallengeGenerator;
 use crate::compiled_circuit::CompiledCircuit;
 use crate::slice_polynomial::SlicePoly;
 use crate::types::Polynomial;
+use crate::verifier::statement_transcript;
 
 /// Struct representing a proof.
 pub struct Proof {
@@ -94,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<T>::default();
+    let mut challenge = statement_transcript::<T>(compiled_circuit, &scheme);
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index ae5c00f..18cdc22 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(&proof, compiled_circuit, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -183,17 +184,38 @@ fn get_circuit_commitment(
     )
 }
 
+/// Starts the transcript of a proof with the statement: the circuit and its public inputs.
+pub(crate) fn statement_transcript<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
+    scheme: &KzgScheme,
+) -> ChallengeGenerator<T> {
+    let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
+        get_circuit_commitment(compiled_circuit, scheme);
+    let pi_c = scheme.commit(compiled_circuit.gate_constraints().pi_x());
+
+    ChallengeGenerator::from_commitments(&[
+        q_m_c,
+        q_l_c,
+        q_r_c,
+        q_o_c,
+        q_c_c,
+        s_sigma_1_c,
+        s_sigma_2_c,
+        s_sigma_3_c,
+        pi_c,
+    ])
+}
+
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
     proof: &Proof,
+    compiled_circuit: &CompiledCircuit,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
-    let commitments = [
-        proof.a_commit.clone(),
-        proof.b_commit.clone(),
-        proof.c_commit.clone(),
-    ];
-    let mut challenge = ChallengeGenerator::<T>::from_commitments(&commitments);
+    let mut challenge = statement_transcript::<T>(compiled_circuit, scheme);
+    challenge.feed(&proof.a_commit);
+    challenge.feed(&proof.b_commit);
+    challenge.feed(&proof.c_commit);
     let [beta, gamma] = challenge.generate_challenges();
     challenge.feed(&proof.z_commit);
     let [alpha] = challenge.generate_challenges();
-- 
2.43.0


From 7ad5f4907807c1c363b1b1c2081a3d00bd8464e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 09/23] fix: fri: Merkle trees hash their padding leaves, so
 every leaf has a proof

---
 fri/src/merkle_tree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 88d206d..245af5e 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -60,6 +60,7 @@ impl<F: PrimeField> MerkleTree<F> {
     pub fn new(mut evaluations: Vec<F>) -> Self {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
 
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
@@ -70,8 +71,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From 2ebecfaf08fd4e0a8211dc43eb92227c8a83652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 10/23] fix: fri: different pairs of nodes no longer hash alike

---
 fri/src/hasher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fri/src/hasher.rs b/fri/src/hasher.rs
index 858c79e..06fafc5 100644
--- a/fri/src/hasher.rs
+++ b/fri/src/hasher.rs
@@ -30,7 +30,11 @@ pub fn hash<F: PrimeField>(data: &F) -> F {
 ///
 pub fn hash_slice<F: PrimeField>(data: &[F]) -> F {
     let mut hasher = Sha256::new();
-    data.iter().for_each(|d| hasher.update(d.to_string()));
+    // terminate each element, so that different slices are never hashed as the same text
+    data.iter().for_each(|d| {
+        hasher.update(d.to_string());
+        hasher.update(b",");
+    });
     let h = hasher.finalize();
     F::from_le_bytes_mod_order(&h)
 }
-- 
2.43.0


From a8255da3ee669655596036d8493940ca06e5a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 11/23] fix: fri: prove the zero polynomial and constants
 without blow-up

---
 fri/src/prover.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..12849b1 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -50,7 +50,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
     mut domain_size: usize,
     number_layers: usize,
 ) -> (F, Transcript<T, F>, Vec<FriLayer<F>>) {
-    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers.ilog2() as usize + 1);
+    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers);
     let mut transcript = Transcript::new(F::ZERO);
 
     for _ in 0..number_layers {
@@ -67,7 +67,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    assert!(poly.len() <= 1); // a constant; no coefficient at all if it is 0
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
@@ -84,10 +84,6 @@ fn query_phase<T: Digest + Default, F: PrimeField>(
     transcript: &mut Transcript<T, F>,
     fri_layers: &Vec<FriLayer<F>>,
 ) -> (Vec<Decommitment<F>>, Vec<usize>) {
-    if fri_layers.is_empty() {
-        return (vec![], vec![]);
-    }
-
     let challenge_list = transcript
         .generate_challenge_list_usize(number_of_queries)
         .iter()
-- 
2.43.0


From 6bddf5f21ad2d1c1307bc1503450985369065cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 12/23] fix: fri: the verifier rejects proofs of the wrong
 shape

---
 fri/src/verifier.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..7bb8518 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,8 +12,10 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    check_shape(&proof)?;
+
     // regenerate random_r list
-    let merkle_roots = proof.layers_root;
+    let merkle_roots = proof.layers_root.clone();
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
         .into_iter()
@@ -48,6 +50,36 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     Ok(())
 }
 
+/// Checks that every list of the proof has the length its domain size and query count require
+fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
+    let domain_exists = proof.domain_size.is_power_of_two()
+        && <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_some();
+    if !domain_exists {
+        return Err(String::from("wrong domain size!"));
+    }
+    if proof.coset != F::GENERATOR {
+        return Err(String::from("wrong coset!"));
+    }
+
+    let number_of_layers = proof.domain_size.ilog2() as usize;
+    if proof.layers_root.len() != number_of_layers {
+        return Err(String::from("wrong number of layers!"));
+    }
+    if proof.decommitment_list.len() != proof.number_of_queries {
+        return Err(String::from("wrong number of decommitments!"));
+    }
+    for decommitment in &proof.decommitment_list {
+        if decommitment.evaluations.len() != number_of_layers
+            || decommitment.auth_paths.len() != number_of_layers
+            || decommitment.sym_evaluations.len() != number_of_layers
+            || decommitment.sym_auth_paths.len() != number_of_layers
+        {
+            return Err(String::from("wrong length of a decommitment!"));
+        }
+    }
+    Ok(())
+}
+
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
-- 
2.43.0


From fda6efd4d0aeb065301989803b5268cfe7de0dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 13/23] fix: fri: authentication paths must lead to the
 committed layer roots

---
 fri/src/merkle_tree.rs | 12 ++++++++++++
 fri/src/verifier.rs    |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 245af5e..4bc1464 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,18 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+impl<F: PrimeField> MerkleProof<F> {
+    /// Whether this is a path of a tree with the given root and depth.
+    ///
+    /// # Arguments
+    ///
+    /// * `root` - The committed root.
+    /// * `depth` - The depth of the committed tree.
+    pub fn leads_to(&self, root: &F, depth: usize) -> bool {
+        self.root == *root && self.hash_proof.len() == depth
+    }
+}
+
 #[cfg(zkp_verif)]
 impl<F: PrimeField> MerkleProof<F> {
     /// Verification hook: the private parts of the proof (sibling hashes and root).
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index 7bb8518..e97c3c7 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -45,6 +45,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
             proof.domain_size,
             proof.const_val,
             proof.coset,
+            &proof.layers_root,
         )?
     }
     Ok(())
@@ -87,6 +88,7 @@ fn verify_query<F: PrimeField>(
     domain_size: usize,
     const_val: F,
     coset: F,
+    layers_root: &[F],
 ) -> Result<(), String> {
     let mut cur_domain_size = domain_size;
     let mut cur_coset = coset;
@@ -116,6 +118,11 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        let depth = cur_domain_size.ilog2() as usize;
+        if !path.leads_to(&layers_root[i], depth) || !sym_path.leads_to(&layers_root[i], depth) {
+            return Err(String::from("the path does not belong to this layer!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From d1e8c9748b846389220953343ad6fad6820520ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 14/23] fix: nova: the trivial pair satisfies every R1CS

---
 nova/src/r1cs/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..e6e4f20 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -70,7 +70,8 @@ impl FWitness {
     }
 }
 
-/// This function creates a trivial instance-witness pair
+/// This function creates a trivial instance-witness pair, where E, W, x and u are all zero,
+/// so that it satisfies every R1CS.
 #[allow(dead_code)]
 pub fn create_trivial_pair(
     x_len: usize,
@@ -79,7 +80,8 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From fc5048bd3dcc9ad305d731cf0b6a358aa8e1d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 15/23] fix: nova: the folded error vector has an entry for
 every constraint

---
 nova/src/nifs/mod.rs | 12 ++++++------
 nova/src/r1cs/mod.rs | 12 +++++++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..81e06bc 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -60,6 +60,8 @@ impl<T: Digest + Default> NIFS<T> {
     /// Fold two witnesses into one.
     /// E ← E1 + r · T + r^2 · E2
     /// W ← W1 + r · W2
+    ///
+    /// An error vector that is shorter than the others stands for itself extended with zeros.
     pub fn fold_witness(
         r: ScalarField,
         fw1: &FWitness,
@@ -67,12 +69,10 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
-            .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+        let entry = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or_default();
+        let len = t.len().max(fw1.e.len()).max(fw2.e.len());
+        let new_e = (0..len)
+            .map(|i| entry(&fw1.e, i) + r * entry(t, i) + r * r * entry(&fw2.e, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index e6e4f20..908ede3 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -112,7 +112,17 @@ pub fn is_r1cs_satisfied(
 
     let left_side = hadamard_product(&az, &bz);
     let ucz = vector_elem_product(&cz, f_instance.u);
-    let right_side = vec_add(&ucz, &f_witness.e);
+
+    // E is extended with zeros to the number of constraints; it has no error beyond them.
+    let mut e = f_witness.e.clone();
+    while e.len() > ucz.len() && e.last().is_some_and(|error| error.is_zero()) {
+        e.pop();
+    }
+    if e.len() > ucz.len() {
+        return Err(String::from("Error vector does not match with matrices"));
+    }
+    e.resize(ucz.len(), ScalarField::zero());
+    let right_side = vec_add(&ucz, &e);
 
     let res_eq = vec_equal(&left_side, &right_side);
 
-- 
2.43.0


From 9e37ccf6d64691344583f7cd23308e57ed620863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 16/23] fix: nova: an instance without public IO is refused
 instead of panicking

---
 nova/src/circuit.rs          | 3 +--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..4a927bd 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_i.x.first() != Some(&hash_fr) {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..722d842 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x.first() != Some(&hash_fr) {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From 387621569c6ea687a4728ee296a00f2ddb0703fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/23] fix: nova: the folding challenge binds both folded
 instances

---
 nova/src/circuit.rs            |  4 ++--
 nova/src/nifs/nifs_prover.rs   |  4 ++--
 nova/src/nifs/nifs_verifier.rs | 12 ++++++------
 nova/src/transcript.rs         | 11 +++++++++++
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 4a927bd..0fc6872 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -100,8 +100,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
-            transcript.feed_scalar_num(u_i.u);
-            transcript.feed_scalar_num(big_u_i.unwrap().u);
+            transcript.feed_instance(u_i);
+            transcript.feed_instance(big_u_i.unwrap());
             transcript.feed(com_t.unwrap());
             let [r] = transcript.generate_challenges();
 
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..cf9e37b 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,8 +29,8 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
-        transcript.feed_scalar_num(fi1.u);
-        transcript.feed_scalar_num(fi2.u);
+        transcript.feed_instance(fi1);
+        transcript.feed_instance(fi2);
         transcript.feed(&com_t);
         let [r] = transcript.generate_challenges();
 
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..0d03a03 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,7 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
-        let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
+        let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
         // verify opening.
@@ -43,19 +43,19 @@ impl<T: Digest + Default> NIFS<T> {
     /// Verify challenge r via Fiat-Shamir
     pub fn verify_challenge(
         r: ScalarField,
-        fi1_u: ScalarField,
-        fi2_u: ScalarField,
+        fi1: &FInstance,
+        fi2: &FInstance,
         com_t: &KzgCommitment,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // Recreate challenge r
-        transcript.feed_scalar_num(fi1_u);
-        transcript.feed_scalar_num(fi2_u);
+        transcript.feed_instance(fi1);
+        transcript.feed_instance(fi2);
         transcript.feed(com_t);
 
         let [new_r] = transcript.generate_challenges();
 
-        // Verify that proof.r = Transcript(fi1.u, fi2.u, cmT)
+        // Verify that proof.r = Transcript(fi1, fi2, cmT)
         if new_r != r {
             return Err(String::from("Verify: Error in computing random r"));
         }
diff --git a/nova/src/transcript.rs b/nova/src/transcript.rs
index 6014387..14f255d 100644
--- a/nova/src/transcript.rs
+++ b/nova/src/transcript.rs
@@ -7,6 +7,7 @@ use rand::rngs::StdRng;
 use rand::SeedableRng;
 use sha2::Digest;
 
+use crate::r1cs::FInstance;
 use kzg::commitment::KzgCommitment;
 use kzg::types::ScalarField;
 
@@ -87,6 +88,16 @@ impl<T: Digest + Default> Transcript<T> {
         self.generated = false;
     }
 
+    /// Feeds a whole committed relaxed R1CS instance to the transcript
+    pub(crate) fn feed_instance(&mut self, instance: &FInstance) {
+        self.feed(&instance.com_e);
+        self.feed_scalar_num(instance.u);
+        self.feed(&instance.com_w);
+        for x in &instance.x {
+            self.feed_scalar_num(*x);
+        }
+    }
+
     fn generate_rng_with_seed(&mut self) -> StdRng {
         if self.generated {
             panic!("I'm hungry! Feed me something first");
-- 
2.43.0


From b8bc831088b3dcf2a1b70b701e3bfa3091d97009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 18/23] fix: plonk: both parsers read powers, signs, blanks and
 constants by their meaning and refuse other text

---
 .../common_preprocessed_input/cpi_parser.rs   |  55 +--------
 plonk/src/parser.rs                           | 116 ++++++++++++------
 2 files changed, 79 insertions(+), 92 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..e863f64 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,6 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
+use crate::parser::Parser;
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -117,7 +118,7 @@ impl CPIGenerator {
         input: &str,
         scheme: KzgScheme,
     ) -> Result<CommonPreprocessedInput, String> {
-        let input = Self::normalize(input);
+        let input = Parser::parse_string(input);
         let (gate_list, position_map) = self.prepare_generation(&input);
         let circuit = Self::gen_circuit(gate_list, position_map);
         Ok(CommonPreprocessedInput::new(circuit.compile()?, scheme))
@@ -142,7 +143,7 @@ impl CPIGenerator {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(Parser::negate(&result));
         split_list
             .into_iter()
             .map(|split_list| {
@@ -368,56 +369,6 @@ impl CPIGenerator {
             position_map.insert(value.to_string(), vec![(wire_number, gate_number)]);
         }
     }
-
-    /// Normalize the polynomial string to be compatible with the parser
-    ///
-    /// Feature:
-    /// - Lower case
-    /// - Expand simple ^ into *
-    /// - Delete space character " "
-    fn normalize(string: &str) -> String {
-        let string = string.to_lowercase();
-        let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
-            }
-            if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
-                    }
-                }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
-            }
-        }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
-        }
-        result
-    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..eb34680 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -109,7 +109,7 @@ impl Parser {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(Self::negate(&result));
         split_list
             .into_iter()
             .map(|split_list| {
@@ -369,50 +369,86 @@ impl Parser {
     /// Feature:
     /// - Lower case
     /// - Expand simple ^ into *
-    /// - Delete space character " "
-    fn parse_string(string: &str) -> String {
-        let string = string.to_lowercase();
+    /// - Delete blank characters
+    ///
+    /// # Panics
+    ///
+    /// If the string is not a sum of products, the equal sign and a product.
+    pub(crate) fn parse_string(string: &str) -> String {
+        let string = Self::delete_blanks(&string.to_lowercase());
+        let sides = string.split('=').collect::<Vec<&str>>();
+        assert_eq!(sides.len(), 2, "can't parse polynomial");
+        let sum = sides[0]
+            .split('+')
+            .map(Self::parse_product)
+            .collect::<Vec<String>>();
+        format!("{}={}", sum.join("+"), Self::parse_product(sides[1]))
+    }
+
+    /// Delete blank characters, which must not split a name or a number
+    fn delete_blanks(string: &str) -> String {
+        let is_word = |c: char| c.is_alphanumeric() || c == '_';
         let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
-            }
-            if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
-                    }
-                }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
-            }
-        }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
+        for word in string.split_whitespace() {
+            if result.ends_with(is_word) && word.starts_with(is_word) {
+                panic!("can't parse polynomial")
             }
+            result.push_str(word);
         }
         result
     }
+
+    /// Parse a product of factors
+    fn parse_product(product: &str) -> String {
+        product
+            .split('*')
+            .map(Self::parse_factor)
+            .collect::<Vec<String>>()
+            .join("*")
+    }
+
+    /// Parse a factor: a variable or a constant, which may have signs before and a power after
+    fn parse_factor(factor: &str) -> String {
+        let unsigned = factor.trim_start_matches('-');
+        let is_negative = (factor.len() - unsigned.len()) % 2 == 1;
+        let (base, power) = match unsigned.split_once('^') {
+            Some((base, power)) => (base, Self::parse_number(power)),
+            None => (unsigned, 1),
+        };
+        let base = if base.starts_with(|c: char| c.is_alphabetic() || c == '_') {
+            let is_name = |c: char| c.is_alphabetic() || c.is_ascii_digit() || c == '_';
+            assert!(base.chars().all(is_name), "can't parse polynomial");
+            base.to_string()
+        } else {
+            Self::parse_number(base).to_string()
+        };
+        let result = match power {
+            0 => "1".to_string(),
+            _ => vec![base; power as usize].join("*"),
+        };
+        if is_negative {
+            Self::negate(&result)
+        } else {
+            result
+        }
+    }
+
+    /// Parse a number without a sign
+    fn parse_number(number: &str) -> i32 {
+        assert!(
+            number.chars().all(|c| c.is_ascii_digit()),
+            "can't parse polynomial"
+        );
+        number.parse::<i32>().expect("can't parse polynomial")
+    }
+
+    /// Change the sign of a product
+    pub(crate) fn negate(product: &str) -> String {
+        match product.strip_prefix('-') {
+            Some(product) => product.to_string(),
+            None => "-".to_string() + product,
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0


From 999a42c2723566749d8505a0dc67d0b467db5b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 19/23] fix: plonk: witnesses of variables with capital letters
 are found

---
 plonk/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index eb34680..c2ef15a 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -67,7 +67,7 @@ pub struct Parser {
 }
 
 impl Parser {
-    /// Add witness for the polynomial string
+    /// Add witness for the polynomial string, whose variables have no letter case
     ///
     /// ```
     /// use ark_bls12_381::Fr;
@@ -79,7 +79,7 @@ impl Parser {
     /// parser.parse("x=1");
     /// ```
     pub fn add_witness(&mut self, variable: &str, value: Fr) {
-        self.witnesses.insert(variable.to_string(), value);
+        self.witnesses.insert(variable.to_lowercase(), value);
     }
 
     /// Parse the input string to generate the circuit
-- 
2.43.0


From d2f07ef6a6dc30e668548239cc5b16c0171ccfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 20/23] fix: plonk: the parsers tie a negated variable to the
 variable

---
 .../common_preprocessed_input/cpi_parser.rs   | 78 ++++++++++-------
 plonk/src/parser.rs                           | 85 ++++++++++++-------
 2 files changed, 101 insertions(+), 62 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e863f64..b0a9d74 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -168,42 +168,18 @@ impl CPIGenerator {
                 multi_collections
                     .into_iter()
                     .reduce(|left, right| {
-                        let gate_number = gate_list.len();
                         let result = ParserWire::new(
                             format!("{}*{}", &left.value_string, &right.value_string),
                             // left.value_fr * right.value_fr,
                         );
-                        let gate = ParserGate::new(
-                            left.clone(),
-                            right.clone(),
-                            result.clone(),
-                            Multiplication,
-                        );
-                        if gate_set.get(&gate).is_some() {
-                            return result;
-                        }
-                        gate_list.push(gate.clone());
-                        gate_set.insert(gate);
-
-                        Self::push_into_position_map_or_insert(
-                            0,
-                            gate_number,
-                            &mut position_map,
-                            &left.value_string,
-                        );
-                        Self::push_into_position_map_or_insert(
-                            1,
-                            gate_number,
+                        self.generate_multiplication_gate(
+                            &mut gate_list,
+                            &mut gate_set,
                             &mut position_map,
-                            &right.value_string,
-                        );
-                        Self::push_into_position_map_or_insert(
-                            2,
-                            gate_number,
-                            &mut position_map,
-                            &result.value_string,
-                        );
-                        result
+                            left,
+                            right,
+                            result,
+                        )
                     })
                     .unwrap()
             })
@@ -308,6 +284,32 @@ impl CPIGenerator {
         result
     }
 
+    /// Generate a multiplication gate
+    fn generate_multiplication_gate(
+        &self,
+        gate_list: &mut Vec<ParserGate>,
+        gate_set: &mut HashSet<ParserGate>,
+        position_map: &mut HashMap<String, Vec<(usize, usize)>>,
+        left: ParserWire,
+        right: ParserWire,
+        result: ParserWire,
+    ) -> ParserWire {
+        let gate_number = gate_list.len();
+        let gate = ParserGate::new(left.clone(), right.clone(), result.clone(), Multiplication);
+
+        if gate_set.get(&gate).is_some() {
+            return result;
+        }
+
+        gate_list.push(gate.clone());
+        gate_set.insert(gate);
+
+        Self::push_into_position_map_or_insert(0, gate_number, position_map, &left.value_string);
+        Self::push_into_position_map_or_insert(1, gate_number, position_map, &right.value_string);
+        Self::push_into_position_map_or_insert(2, gate_number, position_map, &result.value_string);
+        result
+    }
+
     /// Generate a constant gate
     fn generate_constant_gate(
         &self,
@@ -339,7 +341,8 @@ impl CPIGenerator {
         result
     }
 
-    /// Check if the value represents a constant and generate a constant gate if so
+    /// Check if the value represents a constant and generate a constant gate if so,
+    /// or a negated variable and generate the gates which tie it to the variable if so
     fn check_constant(
         &self,
         gate_list: &mut Vec<ParserGate>,
@@ -349,6 +352,17 @@ impl CPIGenerator {
     ) {
         if value.parse::<i32>().is_ok() {
             self.generate_constant_gate(gate_list, gate_set, position_map, ParserWire::new(value));
+        } else if let Some(variable) = value.strip_prefix('-') {
+            let minus_one = ParserWire::new("-1".to_string());
+            self.generate_constant_gate(gate_list, gate_set, position_map, minus_one.clone());
+            self.generate_multiplication_gate(
+                gate_list,
+                gate_set,
+                position_map,
+                minus_one,
+                ParserWire::new(variable.to_string()),
+                ParserWire::new(value.clone()),
+            );
         };
     }
 
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index c2ef15a..5b2162e 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -3,7 +3,7 @@ use std::collections::{HashMap, HashSet};
 use std::ops::Neg;
 
 use ark_bls12_381::Fr;
-use ark_ff::Zero;
+use ark_ff::{One, Zero};
 
 use crate::circuit::Circuit;
 use crate::parser::TypeOfCircuit::*;
@@ -136,38 +136,18 @@ impl Parser {
                 multi_collections
                     .into_iter()
                     .reduce(|left, right| {
-                        let gate_number = gate_list.len();
                         let result = Wire::new(
                             format!("{}*{}", &left.value_string, &right.value_string),
                             left.value_fr * right.value_fr,
                         );
-                        let gate =
-                            Gate::new(left.clone(), right.clone(), result.clone(), Multiplication);
-                        if gate_set.get(&gate).is_some() {
-                            return result;
-                        }
-                        gate_list.push(gate.clone());
-                        gate_set.insert(gate);
-
-                        Self::push_into_position_map_or_insert(
-                            0,
-                            gate_number,
+                        self.generate_multiplication_gate(
+                            &mut gate_list,
+                            &mut gate_set,
                             &mut position_map,
-                            &left.value_string,
-                        );
-                        Self::push_into_position_map_or_insert(
-                            1,
-                            gate_number,
-                            &mut position_map,
-                            &right.value_string,
-                        );
-                        Self::push_into_position_map_or_insert(
-                            2,
-                            gate_number,
-                            &mut position_map,
-                            &result.value_string,
-                        );
-                        result
+                            left,
+                            right,
+                            result,
+                        )
                     })
                     .unwrap()
             })
@@ -273,6 +253,31 @@ impl Parser {
         result
     }
 
+    /// Generate a multiplication gate
+    fn generate_multiplication_gate(
+        &self,
+        gate_list: &mut Vec<Gate>,
+        gate_set: &mut HashSet<Gate>,
+        position_map: &mut HashMap<String, Vec<(usize, usize)>>,
+        left: Wire,
+        right: Wire,
+        result: Wire,
+    ) -> Wire {
+        let gate_number = gate_list.len();
+        let gate = Gate::new(left.clone(), right.clone(), result.clone(), Multiplication);
+        //if this gate already exist, skip this move
+        if gate_set.get(&gate).is_some() {
+            return result;
+        }
+        gate_list.push(gate.clone());
+        gate_set.insert(gate);
+
+        Self::push_into_position_map_or_insert(0, gate_number, position_map, &left.value_string);
+        Self::push_into_position_map_or_insert(1, gate_number, position_map, &right.value_string);
+        Self::push_into_position_map_or_insert(2, gate_number, position_map, &result.value_string);
+        result
+    }
+
     /// Generate a constant gate
     ///
     /// Take in `value` to make constant gate.
@@ -305,7 +310,8 @@ impl Parser {
     }
 
     /// Get the value of `value` in Fr
-    /// if value is a constant insert a constant gate
+    /// if value is a constant insert a constant gate,
+    /// if value is a negated variable insert the gates which tie it to the variable
     fn get_witness_value(
         &self,
         mut value: &str,
@@ -320,7 +326,26 @@ impl Parser {
         }
         let result = match self.witnesses.get(value) {
             //Not a constant, search in map
-            Some(value) => *value,
+            Some(result) => {
+                if is_negative {
+                    let minus_one = Wire::new("-1".to_string(), Fr::one().neg());
+                    self.generate_constant_gate(
+                        gate_list,
+                        gate_set,
+                        position_map,
+                        minus_one.clone(),
+                    );
+                    self.generate_multiplication_gate(
+                        gate_list,
+                        gate_set,
+                        position_map,
+                        minus_one,
+                        Wire::new(value.to_string(), *result),
+                        Wire::new("-".to_string() + value, result.neg()),
+                    );
+                }
+                *result
+            }
             //Value is a constant insert a constant gate
             None => {
                 eprintln!("value = {:#?}", value);
-- 
2.43.0


From 2ed2d9bb3809689673cd013c563247c3ccb6dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 21/23] fix: nova: the augmented circuit checks that its
 running instance is the one its hash was made of

---
 nova/src/circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 0fc6872..097c874 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -89,6 +89,11 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
                 return Err(String::from("Public IO is wrong "));
             }
 
+            // the stored hash is the one of the running instance: h_i = hash(i, z_0, z_i, U_i)
+            if hash_x != Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap()) {
+                return Err(String::from("Running instance is wrong"));
+            }
+
             // 2. check that u_i.comE = com_([0,...]) and u_i.u = 1
             if u_i.com_e != self.trivial_instance.com_e {
                 return Err(String::from("Commitment of E is wrong"));
-- 
2.43.0


From d6487cc17d76854fbda114baa413eac114a0164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 22/23] fix: fri: the verifier refuses domain sizes the field
 does not have

A size beyond the field's 2-adicity but within its mixed radix was given
a domain of another size, so a proof without queries was accepted.
---
 fri/src/verifier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index e97c3c7..dbedf24 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -54,7 +54,8 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 /// Checks that every list of the proof has the length its domain size and query count require
 fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
     let domain_exists = proof.domain_size.is_power_of_two()
-        && <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_some();
+        && <GeneralEvaluationDomain<F>>::new(proof.domain_size)
+            .is_some_and(|domain| domain.size() == proof.domain_size);
     if !domain_exists {
         return Err(String::from("wrong domain size!"));
     }
-- 
2.43.0


From 31a69de4c48fb24b285f7fccae79e041d7db3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:16 +0000
Subject: [PATCH 23/23] verif: hook under cfg(zkp_verif) for the polynomials
 committed to

---
 kzg/src/lib.rs    |  2 ++
 kzg/src/scheme.rs |  2 ++
 kzg/src/verif.rs  | 27 +++++++++++++++++++++++++++
 3 files changed, 31 insertions(+)
 create mode 100644 kzg/src/verif.rs

diff --git a/kzg/src/lib.rs b/kzg/src/lib.rs
index 0729123..7b237b1 100644
--- a/kzg/src/lib.rs
+++ b/kzg/src/lib.rs
@@ -3,3 +3,5 @@ pub mod opening;
 pub mod scheme;
 pub mod srs;
 pub mod types;
+#[cfg(zkp_verif)]
+pub mod verif;
diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 50b5d16..3477bd9 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -92,6 +92,8 @@ impl KzgScheme {
             .map(|(cof, s)| s.mul(cof).into_affine())
             .reduce(|acc, e| acc.add(e).into_affine())
             .unwrap_or(G1Point::zero());
+        #[cfg(zkp_verif)]
+        crate::verif::record(polynomial, &point);
         point
     }
 
diff --git a/kzg/src/verif.rs b/kzg/src/verif.rs
new file mode 100644
index 0000000..a60429a
--- /dev/null
+++ b/kzg/src/verif.rs
@@ -0,0 +1,27 @@
+//! Verification hook: the polynomials this thread has committed to, once recording has begun.
+
+use std::cell::RefCell;
+
+use crate::types::{G1Point, Poly};
+
+thread_local! {
+    static COMMITTED: RefCell<Option<Vec<(Poly, G1Point)>>> = const { RefCell::new(None) };
+}
+
+/// Starts recording, with nothing recorded so far.
+pub fn start() {
+    COMMITTED.with(|log| *log.borrow_mut() = Some(Vec::new()));
+}
+
+/// Stops recording and returns what has been committed to since it started.
+pub fn take() -> Vec<(Poly, G1Point)> {
+    COMMITTED.with(|log| log.borrow_mut().take().unwrap_or_default())
+}
+
+pub(crate) fn record(polynomial: &Poly, point: &G1Point) {
+    COMMITTED.with(|log| {
+        if let Some(log) = log.borrow_mut().as_mut() {
+            log.push((polynomial.clone(), *point));
+        }
+    });
+}
-- 
2.43.0

