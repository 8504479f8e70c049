From 7580e8a13a5234d9fd1f65714f3de9e36bf3767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 01/15] fix: compare the right operand's identity flag in curve
 point equality

ct_eq computed both identity flags from self, so the identity compared
equal to every point, and every point compared with the identity went
through the projective cross products, which are all zero.
---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From e4900ca938e3ccb30fabece966a0a43df712cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:57 +0000
Subject: [PATCH 02/15] fix: tie a witnessed curve point's coordinates to (0,
 0) when it is the identity

The curve equation was only enforced when is_identity was unset, and
nothing constrained the coordinates when it was set, so a prover could
witness 'the identity' with arbitrary coordinates.
---
 src/gadgets/ecc.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..114d337 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -80,9 +80,16 @@ impl<C: Curve> CurvePoint<C> {
         // h = x
         // i := x^3
         //
+        // The identity is represented as (0, 0), so B only appears in the
+        // curve equation if the point is not the identity:
+        //
+        // i + B * (1 - is_identity) - c = 0
+        //
+        // and in the identity case x (and thus y) must be zero:
+        //
         // j * k = l
-        // j = i + B - c
-        // k = (1 - is_identity)
+        // j = x
+        // k = is_identity
         // l = 0
 
         let ysq = y_val.map(|y| y * &y);
@@ -108,22 +115,18 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(f_var) - g_var);
         cs.enforce_zero(x.lc() - h_var);
 
-        let (j_var, k_var, l_var) = cs.multiply(
-            || "(x^3 + B - y^2) * (1 - is_identity) = 0",
-            || {
-                Ok((
-                    xcub? + &C::b() - &ysq?,
-                    (!is_identity_val?).into(),
-                    C::Base::zero(),
-                ))
-            },
-        )?;
-        cs.enforce_zero(
-            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE) - c_var - j_var,
-        );
         cs.enforce_zero(
-            LinearCombination::zero() + (Coeff::One, CS::ONE) - is_identity.get_variable() - k_var,
+            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE)
+                - (Coeff::Full(C::b()), is_identity.get_variable())
+                - c_var,
         );
+
+        let (j_var, k_var, l_var) = cs.multiply(
+            || "x * is_identity = 0",
+            || Ok((x_val?, is_identity_val?.into(), C::Base::zero())),
+        )?;
+        cs.enforce_zero(x.lc() - j_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - k_var);
         cs.enforce_zero(LinearCombination::from(l_var));
 
         Ok(CurvePoint {
-- 
2.43.0


From 759eba479a432d52a5c2286160113ee38f49d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:35 +0000
Subject: [PATCH 03/15] fix: constrain the output coordinates of incomplete
 curve point addition

The gadget derived linear combinations for the sum but never tied the
returned variables to them, so the result was unconstrained.
---
 src/gadgets/ecc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 114d337..a6333f7 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -347,6 +347,10 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
 
+        // Constrain the output coordinates
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
+
         Ok(CurvePoint {
             x: x_r.into(),
             y: y_r.into(),
-- 
2.43.0


From f8b50f06ed2fadf53c8096e8bbc8c98fad4e5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 04/15] fix: enforce the curve equation on the witness of
 multiply_inv

The inverse-multiple witness was allocated without the curve equation or
the (0, 0) identity representation being enforced on it.
---
 src/gadgets/ecc.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index a6333f7..925aa8e 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1970,33 +1970,15 @@ impl<C: Curve> CurvePoint<C> {
         let inverted_val = p.map(|p| {
             let inv = mulby.invert();
             if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
+                C::zero()
             } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
-                } else {
-                    (C::Base::zero(), C::Base::zero(), true)
-                }
+                p * &inv.unwrap()
             }
         });
 
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+        // The witnessed point must be constrained to be on the curve, since the
+        // multiplication below assumes that it is.
+        let inverted = Self::witness(cs.namespace(|| "inverted"), || inverted_val)?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0


From 02345f9967f8357bc3dfbc5132670a90c0bff091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 05/15] fix: constrain the result of complete curve point
 addition

The constraints tying x4/y4 to the computed sum, and the one forcing
p3_is_identity when y1 = -y2, were commented out, so the sum of two
non-identity points was unconstrained. Witness x3/y3 as implied by lambda
so that the constraints are satisfiable when an operand is the identity.
---
 src/gadgets/ecc.rs | 88 +++++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 925aa8e..41b0da6 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -405,26 +405,8 @@ impl<C: Curve> CurvePoint<C> {
         let p1_is_identity_val = self.is_identity.get_value();
         let p2_is_identity_val = other.is_identity.get_value();
 
-        let x4_val =
-            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
-
-        let y4_val =
-            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
-
-        let x5_val = x2_val.and_then(|x2| {
-            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
-        });
-
-        let y5_val = y2_val.and_then(|y2| {
-            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
-        });
-
-        let x_out_val = x1_val.and_then(|x1| {
-            x5_val.and_then(|x5| p2_is_identity_val.map(|p2| if p2 { x1 } else { x5 }))
-        });
-        let y_out_val = y1_val.and_then(|y1| {
-            y5_val.and_then(|y5| p2_is_identity_val.map(|p2| if p2 { y1 } else { y5 }))
-        });
+        let x_out_val = x3_val;
+        let y_out_val = y3_val;
 
         let x_out = AllocatedNum::alloc(cs.namespace(|| "x_out"), || {
             x_out_val.ok_or(SynthesisError::AssignmentMissing)
@@ -748,21 +730,57 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
+        // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
+        // If p3 is the identity or the x coordinates differ, then the right hand
+        // side is zero, and we witness zero in place of (y1 + y2)^-1.
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
+
+                let p3_is_identity: C::Base = p3_is_identity.into();
+                let rhs = x_is_same - &p3_is_identity;
+                let y1y2 = y1 + &y2;
+                let inv = y1y2.invert();
+                let inv = if inv.is_some().into() {
+                    inv.unwrap() * &rhs
+                } else {
+                    C::Base::zero()
+                };
 
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+                Ok((y1y2, inv, rhs))
+            },
+        )?;
+        cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
 
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+        // As above, use the values of x3 and y3 that are implied by lambda. These
+        // only correspond to p3 if p1, p2 and p3 are all not the identity.
+        let x3_val = x1_val.and_then(|x1| {
+            x2_val.and_then(|x2| lambda_sq_val.map(|lambda_sq| lambda_sq - &x1 - &x2))
+        });
+        let y3_val = x1_val.and_then(|x1| {
+            y1_val.and_then(|y1| {
+                x3_val.and_then(|x3| lambda_val.map(|lambda| (x1 - &x3) * &lambda - &y1))
+            })
+        });
+
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
+
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -774,8 +792,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -788,8 +805,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From 50f62025ebce9cfbb791318b195a304dd298251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 06/15] fix: reject malformed proofs and leftovers instead of
 panicking

A verifier runs on untrusted data, but vectors of the wrong length,
non-square challenges and zero evaluation points in a proof, in leftovers
or in deferred data made it panic.
---
 src/proofs.rs    | 60 ++++++++++++++++++++++++++++++++++++++++--------
 src/recursion.rs |  3 ++-
 2 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/proofs.rs b/src/proofs.rs
index b774842..1f094bc 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -85,9 +85,12 @@ impl<C: Curve> Leftovers<C> {
         params: &Params<C>,
         circuit: &CS,
     ) -> Result<bool, SynthesisError> {
+        if self.challenges_sq_packed_new.len() != params.k {
+            return Ok(false);
+        }
+
         let sx = params.compute_sx::<_, S>(circuit, self.y_new)?;
         let s_new_commitment = params.commit(&sx, false);
-        assert_eq!(self.challenges_sq_packed_new.len(), params.k);
 
         let challenges_sq_new: Vec<C::Scalar> = self
             .challenges_sq_packed_new
@@ -97,9 +100,15 @@ impl<C: Curve> Leftovers<C> {
 
         let mut allinv = C::Scalar::one();
         for c in &challenges_sq_new {
-            allinv = allinv * &(c.sqrt().unwrap()); // TODO
+            match c.sqrt().to_option() {
+                Some(c) => allinv = allinv * &c,
+                None => return Ok(false),
+            }
         }
-        allinv = allinv.invert().unwrap();
+        let allinv = match allinv.invert().to_option() {
+            Some(allinv) => allinv,
+            None => return Ok(false),
+        };
         let g_new = compute_g_for_inner_product(&params.generators, &challenges_sq_new, allinv);
 
         Ok((g_new == self.g_new) && (s_new_commitment == self.s_new_commitment))
@@ -264,6 +273,14 @@ impl<F: Field> Deferred<F> {
     }
 
     pub fn verify(&self, k: usize) -> bool {
+        if self.x == F::zero()
+            || self.y_cur == F::zero()
+            || self.challenges_sq_packed_old.len() != k
+            || self.challenges_sq_packed_new.len() != k
+        {
+            return false;
+        }
+
         let (lhs, rhs) = self.compute(k);
 
         let correct_gx_old_opening = {
@@ -275,7 +292,10 @@ impl<F: Field> Deferred<F> {
 
             let mut challenges = challenges_sq_old.clone();
             for a in &mut challenges {
-                *a = a.sqrt().unwrap(); // TODO
+                match a.sqrt().to_option() {
+                    Some(root) => *a = root,
+                    None => return false,
+                }
             }
 
             let mut challenges_inv = challenges.clone();
@@ -292,7 +312,10 @@ impl<F: Field> Deferred<F> {
 
         let mut challenges = challenges_sq_new.clone();
         for a in &mut challenges {
-            *a = a.sqrt().unwrap(); // TODO
+            match a.sqrt().to_option() {
+                Some(root) => *a = root,
+                None => return false,
+            }
         }
         let mut challenges_inv = challenges.clone();
         F::batch_invert(&mut challenges_inv);
@@ -819,7 +842,12 @@ impl<C: Curve> Proof<C> {
 
         let mut inputmap = InputMap { inputs: vec![] };
         S::synthesize(&mut inputmap, circuit)?;
-        assert_eq!(inputs.len(), inputmap.inputs.len() - 1);
+        if inputs.len() != inputmap.inputs.len() - 1
+            || leftovers.challenges_sq_packed_new.len() != params.k
+            || !self.inner_product.is_well_formed(5, params.k)
+        {
+            return Err(SynthesisError::Violation);
+        }
 
         let mut transcript = Rescue::<C::Base>::new();
 
@@ -877,7 +905,7 @@ impl<C: Curve> Proof<C> {
 
         let mut challenges_old = challenges_sq_old.clone();
         for c in &mut challenges_old {
-            *c = c.sqrt().unwrap(); // TODO
+            *c = c.sqrt().to_option().ok_or(SynthesisError::Violation)?;
         }
 
         let mut challenges_old_inv = challenges_old.clone();
@@ -1276,13 +1304,28 @@ impl<C: Curve> MultiPolynomialOpening<C> {
         }
     }
 
+    /// Whether this has the shape of an opening proof for the given number of
+    /// instances, over polynomials with 2^k coefficients.
+    fn is_well_formed(&self, instances: usize, k: usize) -> bool {
+        self.rounds.len() == k
+            && self.a.len() == instances
+            && self.rounds.iter().all(|round| {
+                round.L.len() == instances
+                    && round.R.len() == instances
+                    && round.l.len() == instances
+                    && round.r.len() == instances
+            })
+    }
+
     pub fn verify_proof(
         &self,
         transcript: &mut Rescue<C::Base>,
         instances: &[PolynomialOpening<C>],
         k: usize,
     ) -> (bool, Vec<C::Scalar>, C, Vec<u8>) {
-        // TODO: verify lengths of stuff before we proceed
+        if !self.is_well_formed(instances.len(), k) {
+            return (false, vec![], self.g, vec![]);
+        }
 
         let mut p = vec![];
         let mut v = vec![];
@@ -1296,7 +1339,6 @@ impl<C: Curve> MultiPolynomialOpening<C> {
         let mut challenges_inv = vec![];
         let mut challenges_sq_packed = vec![];
         let mut forkvalues = vec![];
-        assert_eq!(self.rounds.len(), k);
 
         for round in &self.rounds {
             for j in 0..instances.len() {
diff --git a/src/recursion.rs b/src/recursion.rs
index ff28cc8..ded48f9 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -136,7 +136,8 @@ where
                 let b = ((byte >> i) & 1) == 1;
                 if b {
                     bitinputs.push(E1::Scalar::one());
-                    k_commitment = k_commitment + iter_gens.next().unwrap();
+                    k_commitment =
+                        k_commitment + iter_gens.next().ok_or(SynthesisError::Violation)?;
                 } else {
                     iter_gens.next();
                     bitinputs.push(E1::Scalar::zero());
-- 
2.43.0


From 2615cd6a5d6f5e5a6e4aa28ced2e2d9a117b5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:15 +0000
Subject: [PATCH 07/15] fix: detect a shorter second synthesis in the
 determinism check

A circuit that performed fewer operations the second time was accepted.
---
 src/dev.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dev.rs b/src/dev.rs
index ecbe828..9dcbeb0 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -578,6 +578,9 @@ pub fn determinism_check<F: Field, C: Circuit<F>>(circuit: &C) -> Result<(), Syn
 
     circuit.synthesize(&mut enforce)?;
 
+    // The second synthesis must not stop short of the first.
+    assert!(enforce.events.next().is_none());
+
     Ok(())
 }
 
-- 
2.43.0


From 9bdf85ea6faed39fc16542d4af4b95058a1ffc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 08/15] fix: accumulate constraint counts of namespaces that
 share a path

Re-entering a namespace replaced its counts, so they no longer added up.
---
 src/dev.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dev.rs b/src/dev.rs
index 9dcbeb0..dda0124 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -697,8 +697,9 @@ pub fn constraint_count<F: Field, C: Circuit<F>, S: SynthesisDriver>(
                 .pop()
                 .expect("Should be leaving a namespace we entered");
             let path = compute_path(&self.current_namespace, node);
-            self.counts
-                .insert(path, (self.current_counts.clone(), gadget_name));
+            let entry = self.counts.entry(path).or_default();
+            entry.0 += self.current_counts.clone();
+            entry.1 = gadget_name;
 
             // Accumulate counts from this node into its parent.
             self.current_counts += self.count_stack.pop().unwrap_or_default();
-- 
2.43.0


From bf74d6a274c34cc14a6560c6cbc65e06f8d23da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:07 +0000
Subject: [PATCH 09/15] fix: refuse circuits with more gates than the
 parameters support

---
 src/proofs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proofs.rs b/src/proofs.rs
index 1f094bc..a9ae250 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -1219,6 +1219,11 @@ impl<C: Curve> Params<C> {
         let mut sx = SxEval::new(y);
         S::synthesize(&mut sx, circuit)?;
         let (mut u, mut v, mut w) = sx.poly();
+        if u.len() > self.n {
+            // The circuit has more multiplication gates than the parameters
+            // support; dropping the excess would leave them unconstrained.
+            return Err(SynthesisError::Violation);
+        }
         u.resize(self.n, C::Scalar::zero());
         v.resize(self.n, C::Scalar::zero());
         w.resize(self.n, C::Scalar::zero());
-- 
2.43.0


From 9e7044fbbfedf451d65be51c60bfdab116542dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:05 +0000
Subject: [PATCH 10/15] Add verification hooks behind cfg(halo_verif)

---
 src/recursion.rs | 75 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/recursion.rs b/src/recursion.rs
index ded48f9..f1754f2 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -1719,3 +1719,78 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
         )
     }
 }
+
+/// Access for external verification harnesses; compiled only with
+/// `--cfg halo_verif`.
+#[cfg(halo_verif)]
+pub mod verif {
+    use super::*;
+
+    /// The components of a `RecursiveProof`.
+    #[derive(Clone)]
+    pub struct RecursiveParts<E1: Curve, E2: Curve> {
+        pub proof: Proof<E1>,
+        pub oldproof1: Leftovers<E1>,
+        pub oldproof2: Leftovers<E2>,
+        pub deferred: Deferred<E2::Scalar>,
+        pub payload: Vec<u8>,
+    }
+
+    impl<E1: Curve, E2: Curve> RecursiveParts<E1, E2> {
+        pub fn of(p: &RecursiveProof<E1, E2>) -> Self {
+            RecursiveParts {
+                proof: p.proof.clone(),
+                oldproof1: p.oldproof1.clone(),
+                oldproof2: p.oldproof2.clone(),
+                deferred: p.deferred.clone(),
+                payload: p.payload.clone(),
+            }
+        }
+
+        pub fn assemble(self) -> RecursiveProof<E1, E2> {
+            RecursiveProof {
+                proof: self.proof,
+                oldproof1: self.oldproof1,
+                oldproof2: self.oldproof2,
+                deferred: self.deferred,
+                payload: self.payload,
+            }
+        }
+    }
+
+    /// The step circuit, with every part of its witness chosen by the caller.
+    pub struct StepCircuit<'a, E1: Curve, E2: Curve, CS: RecursiveCircuit<E1::Scalar>> {
+        pub params: &'a Params<E2>,
+        pub base_case: Option<bool>,
+        pub inner_circuit: &'a CS,
+        pub proof: Option<&'a RecursiveProof<E2, E1>>,
+        pub new_payload: &'a [u8],
+        pub forkvalues: Option<&'a [u8]>,
+        pub old_leftovers: Option<Leftovers<E1>>,
+        pub new_leftovers: Option<Leftovers<E2>>,
+        pub deferred: Option<Deferred<E2::Scalar>>,
+    }
+
+    impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Scalar>>
+        Circuit<E1::Scalar> for StepCircuit<'a, E1, E2, Inner>
+    {
+        fn synthesize<CS: ConstraintSystem<E1::Scalar>>(
+            &self,
+            cs: &mut CS,
+        ) -> Result<(), SynthesisError> {
+            VerificationCircuit::<E1, E2, _> {
+                _marker: PhantomData,
+                params: self.params,
+                base_case: self.base_case,
+                inner_circuit: self.inner_circuit,
+                proof: self.proof,
+                new_payload: self.new_payload,
+                forkvalues: self.forkvalues,
+                old_leftovers: self.old_leftovers.clone(),
+                new_leftovers: self.new_leftovers.clone(),
+                deferred: self.deferred.clone(),
+            }
+            .synthesize(cs)
+        }
+    }
+}
-- 
2.43.0


From f48f944996af956af618e85497ab4271a4063946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:19 +0000
Subject: [PATCH 11/15] fix: make the default curve point the identity element

The derived default was the all-zero projective triple, which claims to be
the identity but absorbs every point added to it.
---
 src/curves/ec0.rs | 8 +++++++-
 src/curves/ec1.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index fbffee5..a365189 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec0 {
     x: Fq,
     y: Fq,
     z: Fq,
 }
 
+impl Default for Ec0 {
+    fn default() -> Self {
+        Ec0::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec0 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index da61392..e03647d 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec1 {
     x: Fp,
     y: Fp,
     z: Fp,
 }
 
+impl Default for Ec1 {
+    fn default() -> Self {
+        Ec1::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec1 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
-- 
2.43.0


From 0e32b84cd185dd80d5165e8e02f76837fa3e75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:50 +0000
Subject: [PATCH 12/15] fix: multiply_fast returned [3] T for the one-bit
 scalar 1

---
 src/gadgets/ecc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 41b0da6..8a9fcc4 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1807,6 +1807,13 @@ impl<C: Curve> CurvePoint<C> {
         if let Some(b) = other.last().unwrap().get_value() {
             assert_eq!(b, true);
         }
+
+        // The accumulator starts from the top two bits, so a lone (set) bit
+        // has to be handled separately: [1] T = T
+        if other.len() == 1 {
+            return Ok(self.clone());
+        }
+
         let mut acc = self.double(cs.namespace(|| "[2] Acc"))?;
         acc = acc.add_incomplete(cs.namespace(|| "[3] Acc"), self)?;
 
-- 
2.43.0


From f6a6335f8f04a9736ede75bdf63b85d036fc41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 13/15] Verification hook: export the 32-bit word gadget behind
 cfg(halo_verif)

---
 src/gadgets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gadgets/mod.rs b/src/gadgets/mod.rs
index 0586b5e..3d9cc54 100644
--- a/src/gadgets/mod.rs
+++ b/src/gadgets/mod.rs
@@ -11,3 +11,7 @@ pub use ecc::*;
 pub use num::*;
 pub use rescue::*;
 pub use uint64::*;
+
+// Verification hook: the 32-bit word gadget is otherwise internal to SHA-256.
+#[cfg(halo_verif)]
+pub use uint32::UInt32;
-- 
2.43.0


From 22e5392e51fa60034885a203cf367d1616579cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 14/15] fix: decide constant 32-bit sums from the bits, not
 from the cached value

A word whose unknown bits were shifted out has constant bits but no cached
value, so the shape of the sum differed with and without a witness.
---
 src/gadgets/uint32.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index f4a4e26..bd60d49 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -300,8 +300,9 @@ impl UInt32 {
 
         // Iterate over the operands
         for op in operands {
-            // Accumulate the value
-            match op.value {
+            // Accumulate the value. A word can consist of constant bits only although
+            // it was derived from unknown values (by shifting them out, say).
+            match op.value.or_else(|| Self::from_bits(&op.bits).value) {
                 Some(val) => {
                     result_value.as_mut().map(|v| *v += u64::from(val));
                 }
-- 
2.43.0


From 8a8b784049b394778171212f1e36af01ee1262a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:56 +0000
Subject: [PATCH 15/15] Verification hook: build an opening claim from its
 parts (cfg halo_verif)

---
 src/proofs.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/proofs.rs b/src/proofs.rs
index a9ae250..6405a6d 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -1765,3 +1765,21 @@ impl<'a, F: Field> Backend<F> for &'a mut SyEval<F> {
         };
     }
 }
+
+#[cfg(halo_verif)]
+impl<C: Curve> PolynomialOpening<C> {
+    /// Verification hook: an opening claim with every part chosen by the caller.
+    pub fn verif_new(
+        commitment: C,
+        opening: C::Scalar,
+        point: C::Scalar,
+        right_edge: bool,
+    ) -> Self {
+        PolynomialOpening {
+            commitment,
+            opening,
+            point,
+            right_edge,
+        }
+    }
+}
-- 
2.43.0

