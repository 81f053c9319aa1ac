From 138ceba8d4cb52ffbfec702a58e0b36d9a9c5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 1/5] fix: shamir: check the number of randomness shares
 received

---
 mpc-core/src/protocols/shamir/rngs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index bcf1ea8..935d64b 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -323,6 +323,11 @@ impl<F: PrimeField> ShamirRng<F> {
         for i in 1..=receiving {
             let send_id = (self.id + self.num_parties - seeded - i) % self.num_parties;
             let shares = net.recv_many(send_id)?;
+            if shares.len() != output.len() {
+                eyre::bail!(
+                    "During generation of correlated randomness: Invalid number of elements received"
+                );
+            }
             for (r, s) in output.iter_mut().zip(shares.iter()) {
                 r[send_id] = *s;
             }
-- 
2.43.0


From 8cd5eb3e0a9b7650b8c628f1e66831df62b36a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 2/5] fix: shamir: check the number of elements received when
 opening vectors

---
 mpc-core/src/protocols/shamir/arithmetic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..ee577a7 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -200,6 +200,9 @@ pub fn open_vec<F: PrimeField, N: Network>(
     let mut transposed = vec![vec![F::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("During opening of a vector: Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -277,6 +280,9 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     let mut transposed = vec![vec![F::zero(); 2 * state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("During opening of a vector: Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
-- 
2.43.0


From 6cd4eb7bdfeec2f9a7c9273ea279cbf319bde66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 3/5] fix: shamir: check the number of elements received when
 opening point vectors

---
 mpc-core/src/protocols/shamir/pointshare.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index eba7872..28fc59e 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -138,6 +138,9 @@ pub fn open_point_many<C: CurveGroup, N: Network>(
     let mut transposed = vec![vec![C::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("During opening of a vector: Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -185,6 +188,9 @@ pub fn open_point_and_field_many<C: CurveGroup, N: Network>(
     let mut transposed_fields = vec![vec![C::ScalarField::zero(); state.threshold + 1]; b.len()];
 
     for (j, (r_point, r_field)) in rcv.into_iter().enumerate() {
+        if r_point.len() != a.len() || r_field.len() != b.len() {
+            eyre::bail!("During opening of a vector: Invalid number of elements received");
+        }
         for (i, val) in r_point.into_iter().enumerate() {
             transposed_points[i][j] = val;
         }
-- 
2.43.0


From 7789e0e78a81cd68f22754decbe77db1498c73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 4/5] fix: plonk: prove circuits without public inputs

---
 co-circom/co-plonk/src/round3.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..bec975c 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,6 +9,7 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
@@ -429,6 +430,13 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         mul4vec_span.exit();
 
         let t_tz_span = tracing::debug_span!("t, tz").entered();
+        // The zkey contains one Lagrange polynomial per public input, but we always need the first one.
+        let l0 = match zkey.lagrange.first() {
+            Some(lagrange) => lagrange.evaluations.to_owned(),
+            None => domains
+                .extended_domain
+                .fft(&vec![domains.domain.size_inv(); zkey.domain_size]),
+        };
         let mut t_vec = Vec::with_capacity(len);
         let mut tz_vec = Vec::with_capacity(len);
         // We do not want to have any network operation in here to reduce MPC rounds. To enforce this, we have a for_each loop here (Network operations require a result)
@@ -448,10 +456,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, l0[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, l0[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0


From 1f3371292088862cc44f068d56d64481709d1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 5/5] fix: plonk: report a witness that is too short instead of
 panicking

---
 co-circom/co-plonk/src/lib.rs    | 20 ++++++++++++++------
 co-circom/co-plonk/src/round1.rs |  2 +-
 co-circom/co-plonk/src/types.rs  | 11 +++++++----
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..14aeb7d 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -144,18 +144,26 @@ mod plonk_utils {
         tracing::trace!("get witness on {index}");
         let result = if index <= zkey.n_public {
             tracing::trace!("indexing public input!");
-            T::promote_to_trivial_share(id, witness.public_inputs[index])
+            witness
+                .public_inputs
+                .get(index)
+                .map(|public_input| T::promote_to_trivial_share(id, *public_input))
         } else if index < zkey.n_vars - zkey.n_additions {
             tracing::trace!("indexing private input!");
-            witness.witness[index - zkey.n_public - 1]
+            witness.witness.get(index - zkey.n_public - 1).copied()
         } else if index < zkey.n_vars {
             tracing::trace!("indexing additions!");
-            witness.addition_witness[index + zkey.n_additions - zkey.n_vars].to_owned()
+            witness
+                .addition_witness
+                .get(index + zkey.n_additions - zkey.n_vars)
+                .copied()
         } else {
-            tracing::warn!("Witness corrupted with invalid Index {index}");
-            return Err(PlonkProofError::CorruptedWitness(index));
+            None
         };
-        Ok(result)
+        result.ok_or_else(|| {
+            tracing::warn!("Witness corrupted with invalid Index {index}");
+            PlonkProofError::CorruptedWitness(index)
+        })
     }
 
     // For convenience coeff is given in reverse order
diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index b89de18..73848b2 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -196,7 +196,7 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
         witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
         zkey: &Zkey<P>,
     ) -> PlonkProofResult<PlonkWitness<P, T>> {
-        let mut witness = PlonkWitness::new(witness, zkey.n_additions);
+        let mut witness = PlonkWitness::new(witness, zkey.n_additions)?;
         // This is hard to multithread as we have to add the results
         // to the vec as they are needed for the later steps.
         // We leave it like that as it does not take to much time (<1ms for poseidon).
diff --git a/co-circom/co-plonk/src/types.rs b/co-circom/co-plonk/src/types.rs
index 2db8f31..9993540 100644
--- a/co-circom/co-plonk/src/types.rs
+++ b/co-circom/co-plonk/src/types.rs
@@ -113,15 +113,18 @@ impl<P: Pairing, T: CircomPlonkProver<P>> PlonkWitness<P, T> {
     pub(super) fn new(
         mut shared_witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
         n_additions: usize,
-    ) -> Self {
+    ) -> PlonkProofResult<Self> {
         // we have a Groth16 witness, therefore there is a leading one in the witness.
         // we just write zero here instead of one to mirror snarkjs.
-        shared_witness.public_inputs[0] = P::ScalarField::zero();
-        Self {
+        *shared_witness
+            .public_inputs
+            .first_mut()
+            .ok_or(PlonkProofError::CorruptedWitness(0))? = P::ScalarField::zero();
+        Ok(Self {
             public_inputs: shared_witness.public_inputs,
             witness: shared_witness.witness,
             addition_witness: Vec::with_capacity(n_additions),
-        }
+        })
     }
 }
 impl<P: Pairing> Default for Keccak256Transcript<P> {
-- 
2.43.0

