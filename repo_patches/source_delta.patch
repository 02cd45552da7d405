From 4d9e223dc05102f03ae1453fd1bd982b49176e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 01/10] fix: batch point addition handles the identity and
 opposite points

Identity points gave a wrong sum and p1 == -p2 panicked in the batch
inversion, so fixed-base MSMs with precomputations (and proofs made with
them) failed for some trusted setups, where the same MSM without
precomputations is correct.
---
 cryptography/bls12_381/src/batch_addition.rs | 26 ++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cryptography/bls12_381/src/batch_addition.rs b/cryptography/bls12_381/src/batch_addition.rs
index 634d124..3e158dd 100644
--- a/cryptography/bls12_381/src/batch_addition.rs
+++ b/cryptography/bls12_381/src/batch_addition.rs
@@ -1,17 +1,29 @@
 use crate::batch_inversion::{batch_inverse, batch_inverse_scratch_pad};
 use blstrs::{Fp, G1Affine, G1Projective};
 use ff::Field;
-use group::Group;
+use group::{prime::PrimeCurveAffine, Group};
 
 /// Adds two elliptic curve points using the point addition/doubling formula.
 ///
 /// Note: The inversion is precomputed and passed as a parameter.
 ///
-/// This function handles both addition of distinct points and point doubling.
+/// This function handles both addition of distinct points and point doubling,
+/// as well as the cases for which the affine formulas are not defined; either
+/// point being the identity, or the points being the negation of each other.
 #[inline(always)]
 fn point_add_double(p1: G1Affine, p2: G1Affine, inv: &blstrs::Fp) -> G1Affine {
     use ff::Field;
 
+    if bool::from(p1.is_identity()) {
+        return p2;
+    }
+    if bool::from(p2.is_identity()) {
+        return p1;
+    }
+    if p1 == -p2 {
+        return G1Affine::identity();
+    }
+
     let lambda = if p1 == p2 {
         p1.x().square().mul3() * inv
     } else {
@@ -26,13 +38,13 @@ fn point_add_double(p1: G1Affine, p2: G1Affine, inv: &blstrs::Fp) -> G1Affine {
 
 /// Chooses between point addition and point doubling based on the input points.
 ///
-/// Note: This does not handle the case where p1 == -p2.
-///
-/// This case is unlikely for our usecase, and is not trivial
-/// to handle.
+/// Note: If either point is the identity or p1 == -p2, then the sum does not need
+/// an inversion. One is returned, so that the batch inversion never sees a zero.
 #[inline(always)]
 fn choose_add_or_double(p1: G1Affine, p2: G1Affine) -> Fp {
-    if p1 == p2 {
+    if bool::from(p1.is_identity()) || bool::from(p2.is_identity()) || p1 == -p2 {
+        Fp::ONE
+    } else if p1 == p2 {
         p2.y().double()
     } else {
         p2.x() - p1.x()
-- 
2.43.0


From 0a39343345baf147d001721668a4b9fe0013e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 02/10] fix: the checked trusted setup loader validates
 g1_lagrange too

---
 eip7594/src/trusted_setup.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eip7594/src/trusted_setup.rs b/eip7594/src/trusted_setup.rs
index d438eca..774b154 100644
--- a/eip7594/src/trusted_setup.rs
+++ b/eip7594/src/trusted_setup.rs
@@ -98,6 +98,8 @@ impl TrustedSetup {
     fn validate_trusted_setup(&self) {
         self.to_commit_key(SubgroupCheck::Check);
         self.to_verification_key(SubgroupCheck::Check);
+        // The lagrange form is not part of either key, so it is checked separately.
+        deserialize_g1_points(&self.g1_lagrange, SubgroupCheck::Check);
     }
 
     fn to_commit_key(&self, subgroup_check: SubgroupCheck) -> CommitKey {
-- 
2.43.0


From ee71ea387fd17c7da1f9589a3677561d946bdf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/10] fix: g1_lincomb and g2_lincomb refuse inputs of
 different lengths

---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From b98a3a7b82f71a96b359cb59be8acc62a9360758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:09 +0000
Subject: [PATCH 04/10] fix: the blst fixed-base MSM handles identity
 generators

---
 cryptography/bls12_381/src/fixed_base_msm.rs | 44 ++++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/cryptography/bls12_381/src/fixed_base_msm.rs b/cryptography/bls12_381/src/fixed_base_msm.rs
index 705f355..d8a1259 100644
--- a/cryptography/bls12_381/src/fixed_base_msm.rs
+++ b/cryptography/bls12_381/src/fixed_base_msm.rs
@@ -1,5 +1,6 @@
 use crate::{fixed_base_msm_window::FixedBaseMSMPrecompWindow, G1Projective, Scalar};
 use blstrs::{Fp, G1Affine};
+use group::{prime::PrimeCurveAffine, Group};
 
 /// FixedBaseMSMPrecomp computes a multi scalar multiplication using pre-computations.
 ///
@@ -10,6 +11,11 @@ pub struct FixedBaseMSMPrecompBLST {
     wbits: usize,
     num_points: usize,
     scratch_space_size: usize,
+    /// For each generator, whether it is the identity element.
+    ///
+    /// blst does not support the identity element in its precomputed tables, so
+    /// these generators are left out; they do not contribute to the result.
+    is_identity: Vec<bool>,
 }
 
 /// UsePrecomp indicates whether we should use pre-computations to speed up the MSM
@@ -55,13 +61,31 @@ impl FixedBaseMSM {
 
 impl FixedBaseMSMPrecompBLST {
     pub fn new(generators_affine: Vec<G1Affine>, wbits: usize) -> Self {
+        let is_identity: Vec<bool> = generators_affine
+            .iter()
+            .map(|point| bool::from(point.is_identity()))
+            .collect();
+
+        // blst expects these to be references, so we convert from Vec<T> to Vec<&T>
+        let generators_affine: Vec<&G1Affine> = generators_affine
+            .iter()
+            .filter(|point| !bool::from(point.is_identity()))
+            .collect();
+
         let num_points = generators_affine.len();
+        if num_points == 0 {
+            return FixedBaseMSMPrecompBLST {
+                table: Vec::new(),
+                wbits,
+                num_points,
+                scratch_space_size: 0,
+                is_identity,
+            };
+        }
+
         let table_size_bytes =
             unsafe { blst::blst_p1s_mult_wbits_precompute_sizeof(wbits, num_points) };
 
-        // blst expects these to be references, so we convert from Vec<T> to Vec<&T>
-        let generators_affine: Vec<&G1Affine> = generators_affine.iter().collect();
-
         // Calculate the number of blst_p1_affine elements
         let table_size = table_size_bytes / std::mem::size_of::<blst::blst_p1_affine>();
 
@@ -79,17 +103,29 @@ impl FixedBaseMSMPrecompBLST {
             wbits,
             num_points,
             scratch_space_size,
+            is_identity,
         }
     }
 
     pub fn msm(&self, scalars: Vec<Scalar>) -> G1Projective {
         use ff::PrimeField;
+        assert_eq!(
+            scalars.len(),
+            self.is_identity.len(),
+            "number of generators and scalars should be equal"
+        );
+        if self.num_points == 0 {
+            return G1Projective::identity();
+        }
+
         let mut ret = blst::blst_p1::default();
         const NUM_BITS_SCALAR: usize = Scalar::NUM_BITS as usize;
 
         let blst_scalars: Vec<_> = scalars
             .into_iter()
-            .map(|scalar| Into::<blst::blst_scalar>::into(scalar).b)
+            .zip(&self.is_identity)
+            .filter(|(_, is_identity)| !**is_identity)
+            .map(|(scalar, _)| Into::<blst::blst_scalar>::into(scalar).b)
             .collect();
         let blst_scalar_ptrs: Vec<*const u8> = blst_scalars
             .iter()
-- 
2.43.0


From a7b376bbd6962fdac274141780e9a1282e85c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 05/10] fix: FK20 proofs are correct with a commitment key
 longer than the bound

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 1158112..57e49d3 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -82,10 +82,12 @@ impl FK20Prover {
         // KZG polynomial commitment scheme for opening a polynomial at a single point
         // does not require all of the coefficients of the polynomial to compute
         // the quotient polynomial.
-        let srs_truncated: Vec<_> = commit_key
-            .g1s
-            .clone()
-            .into_iter()
+        //
+        // Note: The commitment key can contain more points than there are coefficients
+        // in the polynomial. The last points are relative to `polynomial_bound`.
+        let srs_truncated: Vec<_> = commit_key.g1s[..polynomial_bound]
+            .iter()
+            .copied()
             .rev()
             .skip(points_per_proof)
             .collect();
-- 
2.43.0


From 6487ac1c6a74fcba9ba3386bc7639efeaed1e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 06/10] fix: FK20 proofs are correct for polynomials shorter
 than the bound

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 57e49d3..0436772 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -2,6 +2,7 @@ use crate::commit_key::CommitKey;
 use crate::fk20::batch_toeplitz::BatchToeplitzMatrixVecMul;
 use crate::fk20::cosets::reverse_bit_order;
 use crate::fk20::h_poly::take_every_nth;
+use bls12_381::ff::Field;
 use bls12_381::fixed_base_msm::UsePrecomp;
 use bls12_381::group::prime::PrimeCurveAffine;
 use bls12_381::{g1_batch_normalize, G1Point, Scalar};
@@ -190,8 +191,15 @@ impl FK20Prover {
     // ie the core algorithms never consider polynomials in lagrange form.
     fn compute_multi_opening_proofs_poly_coeff(
         &self,
-        polynomial: PolyCoeff,
+        mut polynomial: PolyCoeff,
     ) -> (Vec<G1Point>, Vec<Vec<Scalar>>) {
+        // The h polynomials are computed relative to `polynomial_bound`, so a polynomial
+        // with fewer coefficients is padded to it.
+        let polynomial_bound = self.poly_domain.roots.len();
+        if polynomial.len() < polynomial_bound {
+            polynomial.resize(polynomial_bound, Scalar::ZERO);
+        }
+
         // Compute opening proofs for the polynomial
         //
         let h_poly_commitments =
-- 
2.43.0


From 76444078e4ee8b4af5d8472611f9265f07dd7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:03 +0000
Subject: [PATCH 07/10] fix: Go BlobToKZGCommitment returns the library's error

---
 bindings/golang/prover.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..9087b33 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,7 +60,11 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	result := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	if result.status != C.Ok {
+		defer C.eth_kzg_free_error_message(result.error_msg)
+		return nil, errors.New(C.GoString(result.error_msg))
+	}
 	return out, nil
 }
 
-- 
2.43.0


From 4f23f59bb6c6329da10833fc00197142771e5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:03 +0000
Subject: [PATCH 08/10] fix: Go keeps the context alive during
 BlobToKZGCommitment

---
 bindings/golang/prover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 9087b33..01469d5 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -61,6 +61,8 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 	}
 	out := make([]byte, 48)
 	result := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer must not free the context while the call is using it.
+	runtime.KeepAlive(prover)
 	if result.status != C.Ok {
 		defer C.eth_kzg_free_error_message(result.error_msg)
 		return nil, errors.New(C.GoString(result.error_msg))
-- 
2.43.0


From 6aa348527be383049243a276465589c05cee79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:03 +0000
Subject: [PATCH 09/10] fix: Node rejects cell indices that are not unsigned
 64-bit integers

---
 bindings/node/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..ac781e5 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,15 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  // A negative value is never lossless.
+  let (_, value_u64, lossless) = value.get_u64();
+  if !lossless {
+    return Err(Error::from_reason(
+      "value should be an unsigned 64-bit integer",
+    ));
+  }
+  Ok(value_u64)
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 8627ca0c0337ab0150ae445adb1a85f39e478cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:20 +0000
Subject: [PATCH 10/10] fix: Node contexts can be collected after a rejected
 async call

A rejected async method left napi's reference to its this behind, so the
context, which can hold hundreds of megabytes, was never freed.
---
 bindings/node/src/lib.rs | 47 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index ac781e5..08c97cb 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -1,7 +1,8 @@
 use std::sync::Arc;
 
 use napi::{
-  bindgen_prelude::{BigInt, Error, Uint8Array},
+  bindgen_prelude::{BigInt, Error, ToNapiValue, Uint8Array},
+  sys::{napi_env, napi_value},
   Result,
 };
 use napi_derive::napi;
@@ -100,9 +101,9 @@ impl DASContextJs {
     Ok(Uint8Array::from(&commitment))
   }
 
-  #[napi]
-  pub async fn async_blob_to_kzg_commitment(&self, blob: Uint8Array) -> Result<Uint8Array> {
-    self.blob_to_kzg_commitment(blob)
+  #[napi(ts_return_type = "Promise<Uint8Array>")]
+  pub async fn async_blob_to_kzg_commitment(&self, blob: Uint8Array) -> Settled<Uint8Array> {
+    Settled(self.blob_to_kzg_commitment(blob))
   }
 
   #[napi]
@@ -134,12 +135,12 @@ impl DASContextJs {
     })
   }
 
-  #[napi]
+  #[napi(ts_return_type = "Promise<CellsAndProofs>")]
   pub async fn async_compute_cells_and_kzg_proofs(
     &self,
     blob: Uint8Array,
-  ) -> Result<CellsAndProofs> {
-    self.compute_cells_and_kzg_proofs(blob)
+  ) -> Settled<CellsAndProofs> {
+    Settled(self.compute_cells_and_kzg_proofs(blob))
   }
 
   #[napi]
@@ -149,9 +150,9 @@ impl DASContextJs {
       .map(|cells_and_proofs| cells_and_proofs.cells)
   }
 
-  #[napi]
-  pub async fn async_compute_cells(&self, blob: Uint8Array) -> Result<Vec<Uint8Array>> {
-    self.compute_cells(blob)
+  #[napi(ts_return_type = "Promise<Array<Uint8Array>>")]
+  pub async fn async_compute_cells(&self, blob: Uint8Array) -> Settled<Vec<Uint8Array>> {
+    Settled(self.compute_cells(blob))
   }
 
   #[allow(deprecated)]
@@ -198,13 +199,13 @@ impl DASContextJs {
     })
   }
 
-  #[napi]
+  #[napi(ts_return_type = "Promise<CellsAndProofs>")]
   pub async fn async_recover_cells_and_kzg_proofs(
     &self,
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
-  ) -> Result<CellsAndProofs> {
-    self.recover_cells_and_kzg_proofs(cell_indices, cells)
+  ) -> Settled<CellsAndProofs> {
+    Settled(self.recover_cells_and_kzg_proofs(cell_indices, cells))
   }
 
   #[napi]
@@ -246,15 +247,29 @@ impl DASContextJs {
     }
   }
 
-  #[napi]
+  #[napi(ts_return_type = "Promise<boolean>")]
   pub async fn async_verify_cell_kzg_proof_batch(
     &self,
     commitments: Vec<Uint8Array>,
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
-  ) -> Result<bool> {
-    self.verify_cell_kzg_proof_batch(commitments, cell_indices, cells, proofs)
+  ) -> Settled<bool> {
+    Settled(self.verify_cell_kzg_proof_batch(commitments, cell_indices, cells, proofs))
+  }
+}
+
+/// The outcome of an asynchronous method.
+///
+/// napi releases its reference to an asynchronous method's `this` only when the
+/// future succeeds; with a future that fails, the context could never be
+/// collected. So the future always succeeds, and an error rejects the promise
+/// when the outcome is converted.
+pub struct Settled<T>(Result<T>);
+
+impl<T: ToNapiValue> ToNapiValue for Settled<T> {
+  unsafe fn to_napi_value(env: napi_env, val: Self) -> Result<napi_value> {
+    T::to_napi_value(env, val.0?)
   }
 }
 
-- 
2.43.0

