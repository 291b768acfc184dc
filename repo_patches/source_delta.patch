From 7777b756a19eaaa82484208c1fb2a4ff04942223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 01/36] fix: asvc verify_pos rejects mismatched numbers of
 positions and values

---
 asvc/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..aa410b0 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,11 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // every position needs exactly one claimed value
+    if points.len() != point_values.len() {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
-- 
2.43.0


From 94b8fc25e0e52bf845d9a06a932ea613fa8dfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 02/36] fix: PLONK verify rejects proofs whose commitments or
 evaluations are not those of the protocol's rounds

---
 plonk/src/ahp/mod.rs |  3 +++
 plonk/src/lib.rs     | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/plonk/src/ahp/mod.rs b/plonk/src/ahp/mod.rs
index b8dede5..7b7b020 100644
--- a/plonk/src/ahp/mod.rs
+++ b/plonk/src/ahp/mod.rs
@@ -26,6 +26,9 @@ impl<F: Field> AHPForPLONK<F> {
     pub const LABELS: [&'static str; 9] =
         ["w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"];
 
+    /// number of commitments sent in each round, in the order of `LABELS`
+    pub const ROUND_SIZES: [usize; 3] = [4, 1, 4];
+
     pub fn construct_linear_combinations(
         info: &IndexInfo<F>,
         first_msg: &FirstMsg<F>,
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..832fbcf 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -208,6 +208,13 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // every round sends a fixed number of commitments; a commitment moved
+        // to a later round would not be bound by the challenges before it
+        let counts = proof.commitments.iter().map(|comms| comms.len());
+        if !counts.eq(AHPForPLONK::<F>::ROUND_SIZES.iter().copied()) {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
@@ -225,6 +232,9 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let (vs, third_msg) = AHPForPLONK::verifier_third_round(vs, &mut fs_rng)?;
 
         let query_set = AHPForPLONK::verifier_query_set(&vs);
+        if proof.evaluations.len() != query_set.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From 0ace29a12ac1e5d7ee88d14c2d1bed49f4f111bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 03/36] verification hook: expose marlin's pc module under
 cfg(ckb_zkp_verif)

---
 marlin/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..fdb2c18 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -35,7 +35,10 @@ use ark_std::UniformRand;
 use rand::Rng;
 use zkp_r1cs::{ConstraintSynthesizer, SynthesisError};
 
+#[cfg(not(ckb_zkp_verif))]
 mod pc;
+#[cfg(ckb_zkp_verif)]
+pub mod pc;
 use pc::{Evaluations, LabeledCommitment, PC};
 
 mod ahp;
-- 
2.43.0


From 3c3524a3ae955bede446c31f770d951f22b77490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 04/36] fix: marlin commits to constant and zero polynomials

---
 marlin/src/pc/kzg10.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From 3fa91a1828563b27c8054b687b9f28e511e901ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 05/36] fix: marlin indexer computes matrix densities without
 underflow

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From 01dd4f0ee0a16fc2fa264146d9582a2e2c7f8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 06/36] fix: marlin indexer supports circuits with at most one
 non-zero entry per matrix

---
 marlin/src/ahp/constraint_systems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..919b4e2 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -91,7 +91,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
         let a_density = matrix_density(&self.a_matrix.as_ref().expect("a_matrix is not None"));
         let b_density = matrix_density(&self.b_matrix.as_ref().expect("b_matrix is not None"));
         let c_density = matrix_density(&self.c_matrix.as_ref().expect("c_matrix is not None"));
-        *[a_density, b_density, c_density]
+        // the third round's degree bound is |K| - 2: K has at least two elements
+        *[a_density, b_density, c_density, 2]
             .iter()
             .max()
             .expect("density iterator is not empty")
-- 
2.43.0


From a3aa256b92998b2263917869dd1027f2c450be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 07/36] fix: marlin pads public inputs to a power of two

---
 marlin/src/ahp/constraint_systems.rs | 14 ++++++++++++++
 marlin/src/ahp/prover.rs             |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 919b4e2..a6629f9 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -30,6 +30,16 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     }
 }
 
+/// The formatted input is interpolated over a domain whose size is a power of
+/// two: fill that domain up with zero inputs, so that no witness variable is
+/// indexed as one of its elements.
+fn pad_input<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, num_formatted_inputs: usize) {
+    for i in num_formatted_inputs..num_formatted_inputs.next_power_of_two() {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
+    }
+}
+
 pub(crate) struct IndexerConstraintSystem<F: Field> {
     pub(crate) num_input_variables: usize,
     pub(crate) num_witness_variables: usize,
@@ -67,6 +77,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        let num_formatted_inputs = self.num_input_variables;
+        pad_input(self, num_formatted_inputs);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
@@ -214,6 +226,8 @@ impl<F: Field> ProverConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        let num_formatted_inputs = self.num_input_variables;
+        pad_input(self, num_formatted_inputs);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..fcf8f02 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -20,6 +20,7 @@ use crate::pc::LabeledPolynomial;
 pub struct ProverState<'a, 'b, F: PrimeField> {
     index: &'a Index<'a, F>,
 
+    public_input: Vec<F>,
     formatted_input_assignment: Vec<F>,
     witness_assignment: Vec<F>,
 
@@ -41,7 +42,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.public_input.clone()
     }
 }
 
@@ -89,6 +90,7 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        let public_input = pcs.formatted_input_assignment[1..].to_vec();
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
@@ -131,6 +133,7 @@ impl<F: PrimeField> AHP<F> {
 
         Ok(ProverState {
             index,
+            public_input,
             formatted_input_assignment,
             witness_assignment,
             z_a: z_a,
-- 
2.43.0


From 8f304b2190fb33e15a9b7d25f5e91174e607a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 08/36] fix: marlin verify rejects proofs whose commitments,
 evaluations or openings are not those of the protocol's rounds

---
 marlin/src/lib.rs    | 13 +++++++++++++
 marlin/src/pc/mod.rs |  8 ++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index fdb2c18..9d4acc9 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -189,6 +189,16 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // the transcript only binds a commitment to its round if every round has
+    // the protocol's number of commitments
+    if proof.commitments.len() != 3
+        || proof.commitments[0].len() != 4
+        || proof.commitments[1].len() != 3
+        || proof.commitments[2].len() != 2
+    {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
@@ -204,6 +214,9 @@ pub fn verify_proof<E: PairingEngine>(
     let vstate = AHP::<E::Fr>::verifier_third_round(vstate, &mut fs_rng)?;
 
     let query_set = AHP::<E::Fr>::verifier_query_set(&vstate);
+    if proof.evaluations.len() != query_set.len() {
+        return Ok(false);
+    }
     fs_rng.absorb(&proof.evaluations);
     let opening_challenge: E::Fr = u128::rand(&mut fs_rng).into();
 
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..5a01872 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::Unclassified);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
-- 
2.43.0


From 705f6040834231faae05b9066624e6e0aa2f5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 09/36] fix: bulletproofs adds up the coefficients of a
 variable that occurs repeatedly in a constraint

---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From dd7c9db2f4cdd157da9038b6ecc01a9d53f2893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 10/36] fix: bulletproofs inner product argument rejects proofs
 with a wrong number of rounds

---
 bulletproofs/src/inner_product_proof.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..4ef31ee 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -118,9 +118,15 @@ pub fn verify<G: Curve>(
     P: &G::Projective,
     proof: &Proof<G>,
 ) -> bool {
-    let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    // the number of rounds is determined by the generators, not by the proof
+    let n = g_vec.len();
+    if !n.is_power_of_two() || h_vec.len() != n {
+        return false;
+    }
+    let lg_n = n.trailing_zeros() as usize;
+    if proof.L_vec.len() != lg_n || proof.R_vec.len() != lg_n {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From 3dbdb4fb30e9f59faeb6ef11a8abc73e52907089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 11/36] fix: bulletproofs verify checks t_x against l_x and r_x
 instead of trusting the prover's commitment

---
 bulletproofs/src/arithmetic_circuit.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..3fce30b 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -623,6 +623,13 @@ pub fn verify_proof<G: Curve>(
     let mut r1_public_inputs = vec![one];
     r1_public_inputs.extend(public_inputs);
 
+    if r1_public_inputs.len() != gens.k
+        || proof.l_x.len() != gens.N
+        || proof.r_x.len() != gens.N
+    {
+        return Ok(false);
+    }
+
     // generators
     let g_vec: Vec<G::Affine> = gens.g_vec_N.clone();
     let h_vec: Vec<G::Affine> = gens.h_vec_N.clone();
@@ -797,8 +804,17 @@ pub fn verify_proof<G: Curve>(
     let ux = (gens.u.mul(x_1)).into_affine();
 
     // check tx ?= <lx, rx>
-    // USE IPP here
-    // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    if proof.t_x != inner_product::<G::Fr>(&proof.l_x, &proof.r_x) {
+        return Ok(false);
+    }
+
+    // the inner product argument has to be about l_x, r_x and t_x
+    let IPP_P = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if IPP_P != proof.IPP_P.into_projective() {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
@@ -828,7 +844,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
-- 
2.43.0


From bbecc525fb71ee01b8e5806d9a3d6577f5cf4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 12/36] fix: spartan evaluates sparse value lists with zero
 entries at the right positions

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From 01ac504a3c5a32058263c7cef3c5d9a4dbf00745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 13/36] fix: spartan proofs no longer carry the witness
 evaluation in the clear

---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From ad17b01dc709bf738ce1089950ac09141c815c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 14/36] fix: spartan inner product argument rejects proofs with
 a wrong number of rounds

---
 spartan/src/inner_product.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..ffbee06 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -111,6 +111,7 @@ pub fn bullet_inner_product_verify<G: Curve>(
     let lg_n = proof.l_vec.len();
     let n = 1 << lg_n;
     assert_eq!(lg_n, proof.r_vec.len());
+    assert_eq!(n, b_vec.len());
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
-- 
2.43.0


From 576c25a64688beb2c5300f396b6102dfcd91cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 15/36] fix: spartan encodes matrices with at most one entry

---
 spartan/src/spark.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..9aeb0d4 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,10 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
-    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    // the product circuit has at least one layer, so the list has at least two (padded) entries
+    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len())
+        .next_power_of_two()
+        .max(2);
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From 57bfaa66bf233b6ade2bff8eecaa5e55adfd74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 16/36] fix: spartan NIZK verifier evaluates the matrices at
 the transcript's own point

---
 spartan/src/verify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..e803e5e 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -39,7 +39,7 @@ pub fn verify_nizk_proof<G: Curve>(
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, rx_expected, ry_expected) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +48,8 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // the matrices must have been evaluated at the transcript's own point
+    Ok(result && *rx == rx_expected && *ry == ry_expected)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 9493161b94d4fd71d06127476d9db3d39ea2de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 17/36] fix: spartan hash layer verifier requires evaluations
 for all three matrices

---
 spartan/src/verify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index e803e5e..fc87959 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -920,6 +920,11 @@ pub fn hash_layer_verify<G: Curve>(
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
 
+    assert_eq!(row_eval_addr_ops_list.len(), 3);
+    assert_eq!(row_eval_read_ts_list.len(), 3);
+    assert_eq!(col_eval_addr_ops_list.len(), 3);
+    assert_eq!(col_eval_read_ts_list.len(), 3);
+
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
     evals_ops.extend(row_eval_read_ts_list);
-- 
2.43.0


From a266e50777c496e778a136bc2aa9b52a1710d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 18/36] fix: spartan cubic sum-check rejects round polynomials
 of higher degree

---
 spartan/src/verify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index fc87959..8097b62 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -826,6 +826,7 @@ pub fn sum_check_cubic_verify<G: Curve>(
 
     assert_eq!(proof_poly.len(), num_rounds);
     for poly in proof_poly.iter() {
+        assert!(poly.coeffs.len() <= 4);
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
         assert_eq!(
             poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-- 
2.43.0


From a757ff975c5d93b89f7f86b4e457f23767a093b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 19/36] fix: libra and hyrax circuits pad witnesses and inputs
 to half of the input layer each

---
 hyrax/src/circuit.rs | 4 ++--
 libra/src/circuit.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From ee0407045f7e7c6e516bb326d9b89eec41e53d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 20/36] fix: libra provers pad layers whose gate count is no
 power of two

---
 libra/src/libra_linear_gkr.rs    | 6 +++++-
 libra/src/libra_zk_linear_gkr.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..dda4153 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -28,7 +28,11 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        // the sum-checks run over all 2^bit_size values of the layer below
+        for d in 0..circuit.depth - 1 {
+            circuit_evals[d].resize(1 << circuit.layers[d].bit_size, G::Fr::zero());
+        }
         transcript.append_message(b"input", &to_bytes!(circuit_evals[0]).unwrap());
         transcript.append_message(
             b"output",
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..d5298e8 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -51,7 +51,11 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        // the sum-checks run over all 2^bit_size values of the layer below
+        for d in 0..circuit.depth - 1 {
+            circuit_evals[d].resize(1 << circuit.layers[d].bit_size, G::Fr::zero());
+        }
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(
             b"output",
-- 
2.43.0


From 756d9e0a7c3f5fdbca3b22e2e096cd72d30e9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 21/36] fix: libra zero-knowledge sum-check without rounds
 keeps the claim's blinder

---
 libra/src/sumcheck.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..245866d 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        // without rounds the claim is still committed under the incoming blinder
+        let blind = blind_evals.last().copied().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind, ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +424,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        // without rounds the claim is still committed under the incoming blinder
+        let blind = blind_evals.last().copied().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind, rv)
     }
 }
 
-- 
2.43.0


From 7bccad41832dc2e9c830abc0745aabe45eaa8eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 22/36] fix: libra zero-knowledge prover pads the committed
 witness

---
 libra/src/libra_zk_linear_gkr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index d5298e8..299df33 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -62,6 +62,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        // the committed half of the input layer
+        let mut witnesses = witnesses.clone();
+        witnesses.resize(1 << (circuit.layers[0].bit_size - 1), G::Fr::zero());
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
             &witnesses,
-- 
2.43.0


From d88a21f468f2c1d8d500fec9a862375f1eb8d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 23/36] fix: libra verify checks the wiring predicates' values
 against the circuit

---
 libra/src/libra_linear_gkr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index dda4153..bd08ba1 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -126,11 +126,12 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gv = vec![G::Fr::zero(); gu.len()];
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -146,6 +147,7 @@ impl<G: Curve> LinearGKRProof<G> {
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
+                assert!(poly.coeffs.len() <= 3);
                 assert_eq!(
                     poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
                     claim
@@ -165,6 +167,7 @@ impl<G: Curve> LinearGKRProof<G> {
             assert_eq!(claim, claim_final);
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
+                assert!(poly.coeffs.len() <= 3);
                 assert_eq!(
                     poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
                     claim
@@ -182,6 +185,13 @@ impl<G: Curve> LinearGKRProof<G> {
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            // the evaluations of the wiring predicates are the circuit's
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu, &gv, &ru_vec, &rv_vec, alpha, beta);
+            assert_eq!(eval_rv_final[1], mult_gate_eval);
+            assert_eq!(eval_rv_final[2], add_gate_eval);
+            gu = ru_vec.clone();
+            gv = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From 28be723fca414a1e78434a6c47c3b5eff506c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 24/36] fix: libra and hyrax openings require the number of
 folding rounds of the statement

---
 hyrax/src/commitment.rs | 1 +
 libra/src/commitment.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..67d325b 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -586,6 +586,7 @@ impl<G: Curve> BulletReduceProof<G> {
     ) -> (G::Fr, G::Affine, G::Affine) {
         let lg_n = self.l_vec.len();
         let n = 1 << lg_n;
+        assert_eq!(n, b_vec.len());
         assert_eq!(lg_n, self.r_vec.len());
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..0fbb605 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -578,6 +578,7 @@ impl<G: Curve> BulletReduceProof<G> {
     ) -> (G::Fr, G::Affine, G::Affine) {
         let lg_n = self.l_vec.len();
         let n = 1 << lg_n;
+        assert_eq!(n, b_vec.len());
         assert_eq!(lg_n, self.r_vec.len());
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
-- 
2.43.0


From 077143382ed2a987ca9ff08b586285bea381591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 25/36] fix: hyrax sum-check verifies the layer's claim instead
 of the proof's own commitment

---
 hyrax/src/zk_sumcheck_proof.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..ada70c9 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -630,6 +630,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        assert_eq!(self.comm_a0, comm_claim);
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
-- 
2.43.0


From 50c77306083c81eec2744ca791189cb666887e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 26/36] fix: hyrax sum-check indexes evaluation blinders by the
 size of the layer below

---
 hyrax/src/zk_sumcheck_proof.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index ada70c9..bbb9213 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From 7059ba6f8328ba3dc83f99502db179b601fadf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 27/36] fix: hyrax prover accepts layers whose gate count is no
 power of two

---
 hyrax/src/zk_sumcheck_proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index bbb9213..67e2b82 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -86,7 +86,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
             .map(|i| eq_ql_vec[i] * &u0 + &(eq_qr_vec[i] * &u1))
             .collect::<Vec<_>>();
         let mut temp_vec = Vec::new();
-        for i in 0..xg_q.len() {
+        for i in 0..gates.len() {
             let temp_p_vec = (0..eq_vec.len())
                 .map(|t| eq_vec[t] * &xg_q[i])
                 .collect::<Vec<_>>();
-- 
2.43.0


From a06be6bdf5891f677afecf85af370b53c3e48b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 28/36] fix: hyrax sum-check matrix for a single instance

---
 hyrax/src/evaluate.rs | 53 ++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/hyrax/src/evaluate.rs b/hyrax/src/evaluate.rs
index 88ad5a0..5ce3eb6 100644
--- a/hyrax/src/evaluate.rs
+++ b/hyrax/src/evaluate.rs
@@ -167,45 +167,22 @@ pub fn construct_matrix<G: Curve>(
         .map(|_| vec![G::Fr::zero(); 4 * log_n + 6 * log_g + 3])
         .collect::<Vec<_>>();
 
-    mm[0][0] = G::Fr::one().double();
-    mm[0][1] = G::Fr::one();
-    mm[0][2] = G::Fr::one();
-    mm[0][3] = G::Fr::one();
-    for i in 0..log_n - 1 {
-        let mut r = G::Fr::one().neg();
-        mm[i + 1][i * 4] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 1] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 2] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 3] = r;
-        mm[i + 1][i * 4 + 4] = G::Fr::one().double();
-        mm[i + 1][i * 4 + 5] = G::Fr::one();
-        mm[i + 1][i * 4 + 6] = G::Fr::one();
-        mm[i + 1][i * 4 + 7] = G::Fr::one();
-    }
-    let mut r = G::Fr::one().neg();
-    mm[log_n][(log_n - 1) * 4] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 1] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 2] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 3] = r;
-    mm[log_n][(log_n - 1) * 4 + 4] = G::Fr::one().double();
-    mm[log_n][(log_n - 1) * 4 + 5] = G::Fr::one();
-    mm[log_n][(log_n - 1) * 4 + 6] = G::Fr::one();
-    for i in 0..2 * log_g {
+    // row i + 1 links the value of round i's polynomial at its challenge to the
+    // sum over {0, 1} of the next round's; rounds of the first sum-check have
+    // four coefficients, the others three
+    let rounds = log_n + 2 * log_g;
+    let start = |i: usize| i * 3 + i.min(log_n);
+    for i in 0..rounds {
+        let coeffs = if i < log_n { 4 } else { 3 };
+        mm[i][start(i)] = G::Fr::one().double();
+        for k in 1..coeffs {
+            mm[i][start(i) + k] = G::Fr::one();
+        }
         let mut r = G::Fr::one().neg();
-        mm[log_n + 1 + i][log_n * 4 + i * 3] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 1] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 2] = r;
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 3] = G::Fr::one().double();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 4] = G::Fr::one();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 5] = G::Fr::one();
+        for k in 0..coeffs {
+            mm[i + 1][start(i) + k] = r;
+            r *= if i < log_n { &rs[i] } else { &rs_vec[i - log_n] };
+        }
     }
 
     let eval_0 = eval_eq_x_y::<G>(q_aside_vec, rs);
-- 
2.43.0


From 56683a2ef557df387733604af80bed98a7f95313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 29/36] fix: hyrax pads every instance's witness and input to
 half of the input layer

---
 hyrax/src/hyrax_proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..8ec4974 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,13 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        let half = 1 << (circuit.layers[0].bit_size - 1);
         let mut witness_vec = Vec::new();
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); half - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -282,12 +283,13 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
+        let half = 1 << (circuit.layers[0].bit_size - 1);
         let mut input_vec = Vec::new();
         for i in 0..n {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); half - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
-- 
2.43.0


From 79ca255093876c4072c90fea4c180328f645a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:03 +0000
Subject: [PATCH 30/36] fix: constrain the selected entry of lookup1_x to the
 table

---
 gadgets/src/lookup/table.rs | 55 ++++++++++++-------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..a79ea50 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,24 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| ""), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = b * c1 + (1 - b) * c0
+    // b * (c1 - c0) = r - c0
+    // The table entries are constants of the circuit.
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, F::one()),
+        |lc| lc + (c[1] - &c[0], one),
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From 8831ed4a9458b7f758b105b4b52985075b5886e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 31/36] fix: tie the SHA-256 gadget's output variables to the
 digest

---
 gadgets/src/hashes/sha256.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..646237a 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -354,10 +354,17 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
             .iter()
             .enumerate()
             .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
+                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+                // the output variables carry the digest
+                cs.enforce(
+                    || format!("bit_{} is digest bit {}", i, i),
+                    |lc| lc + a.get_variable(),
+                    |lc| lc + CS::one(),
+                    |_| b.lc(CS::one(), F::one()),
+                );
+                Ok(a.get_variable())
             })
-            .collect();
+            .collect::<Result<_, SynthesisError>>()?;
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From f03bffb790401fda6191d30d70b54cb75a8b02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:06 +0000
Subject: [PATCH 32/36] fix: a Merkle proof's length must match its position

---
 gadgets/src/merkletree/cbmt.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..ccc4089 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,12 +34,12 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
 
+        let index = leaves_count + leaf_index - 1;
+
         let mut lemmas = Vec::new();
 
         if index == 0 {
@@ -104,16 +104,17 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                // the path is longer than the depth of the position.
+                if index.is_root() {
+                    return None;
+                }
+
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,6 +126,11 @@ where
             }
         }
 
+        // the path ends before it reaches the root.
+        if !index.is_root() {
+            return None;
+        }
+
         Some(parent)
     }
 
-- 
2.43.0


From 1583f79371747be3d73b314332da4c6ae9b2e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 33/36] fix: tie the MiMC hash gadget's output to its operands

---
 gadgets/src/hashes/mimc.rs | 54 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..b498c47 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -99,7 +99,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value, image_value) = match b {
         Some(bytes) => {
             let (xl, xr, image) = mimc_hash(bytes, &constants);
             (Some(xl), Some(xr), Some(image))
@@ -107,15 +107,27 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         None => (None, None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    mimc_rounds(cs, (xl_value, var_xl), (xr_value, var_xr), &constants)?;
+
+    Ok(image_value)
+}
+
+/// enforce one MiMC block, from the wires (xl, xr) to the returned wire.
+fn mimc_rounds<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (mut xl_value, mut var_xl): (Option<F>, Variable),
+    (mut xr_value, mut var_xr): (Option<F>, Variable),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -156,7 +168,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         var_xl = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok((xl_value, var_xl))
 }
 
 /// implement AbstractHashOutput.
@@ -222,19 +234,31 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        // h = 0
+        let mut h = (Some(F::zero()), cs.alloc(|| "mimc_init", || Ok(F::zero()))?);
+        cs.enforce(
+            || "mimc_init = 0",
+            |lc| lc + h.1,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
+        // h = block(h, param)
+        for (i, o) in params.iter().enumerate() {
+            h = mimc_rounds(
+                cs.ns(|| format!("mimc_hash_{}", i)),
+                h,
+                (o.value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        Ok(AbstractHashMimcOutput {
+            value: h.0,
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From b75dd2e5df637364842c6b22b30794c51cbb4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 34/36] fix: make the Poseidon gadget compute and enforce the
 Poseidon hash

---
 gadgets/src/hashes/poseidon.rs | 120 +++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 51 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..293ef92 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -627,8 +627,39 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (value, var) = poseidon_rounds(
+        cs.ns(|| "block"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(value))?;
+
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// enforce one Poseidon block, from the wires (xl, xr) to the returned wire.
+fn poseidon_rounds<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &PoseidonConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -668,37 +699,19 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
         // Mix Layer
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * state_value[k];
             }
+            let var = cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?;
+            cs.enforce(
+                || format!("tmp2_{} = mds[{}] * state", j, j),
+                |lc| (0..M).fold(lc, |lc, k| lc + (constants.mds[j][k], state[k])),
+                |lc| lc + CS::one(),
+                |lc| lc + var,
+            );
+            tmp2.push(var);
         }
         for j in 0..M {
             state[j] = tmp2[j];
@@ -706,15 +719,7 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         }
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -724,8 +729,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -763,7 +768,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -820,19 +825,32 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        // h = 0
+        let mut h = (F::zero(), cs.alloc(|| "poseidon_init", || Ok(F::zero()))?);
+        cs.enforce(
+            || "poseidon_init = 0",
+            |lc| lc + h.1,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
+        // h = block(h, param)
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            h = poseidon_rounds(
+                cs.ns(|| format!("poseidon_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        Ok(AbstractHashPoseidonOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From 055d6fd54748dc78603d8657fe190ae38c6716ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 35/36] fix: make the Rescue gadget compute and enforce the
 Rescue hash

---
 gadgets/src/hashes/rescue.rs | 108 ++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 40 deletions(-)

diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..9f4b8a7 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -409,8 +409,38 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (value, var) = rescue_rounds(
+        cs.ns(|| "block"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(value))?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// enforce one Rescue block, from the wires (xl, xr) to the returned wire.
+fn rescue_rounds<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &RescueConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -440,27 +470,19 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state[j] = tuple.1;
         }
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * state_value[k];
             }
+            let var = cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?;
+            cs.enforce(
+                || format!("tmp2_{} = mds[{}] * state", j, j),
+                |lc| (0..M).fold(lc, |lc, k| lc + (constants.mds[j][k], state[k])),
+                |lc| lc + CS::one(),
+                |lc| lc + var,
+            );
+            tmp2.push(var);
         }
         for j in 0..M {
             tmp2_value[j].add_assign(constants.constants[i + 1][j]);
@@ -476,14 +498,7 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state_value[j] = tmp5_value;
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -493,8 +508,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -532,7 +547,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -589,19 +604,32 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
+        // h = 0
+        let mut h = (F::zero(), cs.alloc(|| "rescue_init", || Ok(F::zero()))?);
+        cs.enforce(
+            || "rescue_init = 0",
+            |lc| lc + h.1,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        // h = block(h, param)
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            h = rescue_rounds(
+                cs.ns(|| format!("rescue_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
+
+        Ok(AbstractHashRescueOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From 5f044dbb044abdc3dce3f02465fb5f7fc2c52fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:56 +0000
Subject: [PATCH 36/36] fix: the Merkle path gadget refuses paths and roots of
 the wrong length

---
 gadgets/src/merkletree/cbmt_constraints.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..1b3bcf1 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -29,6 +29,11 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
         let mut lemmas_iter = self.lemmas.iter().enumerate();
         loop {
             if let Some((i, sibling)) = lemmas_iter.next() {
+                // the path is longer than the depth of the position.
+                if index.is_root() {
+                    return Err(SynthesisError::Unsatisfiable);
+                }
+
                 let parent_variable_vec = parent.get_variables();
                 let parent_value_vec = parent.get_variable_values();
                 let sibling_variable_vec = sibling.get_variables();
@@ -94,10 +99,20 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
-        let pre = parent
-            .get_variables()
+        // the path ends before it reaches the root.
+        if !index.is_root() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
+        let parent_variables = parent.get_variables();
+        let root_variables = root.get_variables();
+        if parent_variables.len() != root_variables.len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
+        let pre = parent_variables
             .iter()
-            .zip(root.get_variables().into_iter())
+            .zip(root_variables.into_iter())
             .map(|(i, l)| (*i, l))
             .collect::<Vec<_>>();
 
-- 
2.43.0

