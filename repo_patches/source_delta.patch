From b282d1d5d404eb1122468f885ddca2ea4ab942cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 01/24] fix: peephole patterns Dup+Mul+Mul and
 LoadCached+StoreCached changed the stack

---
 src/evaluator/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..83e3a1e 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -512,18 +512,24 @@ impl CompiledEvaluator {
                                 changed = true;
                                 continue;
                             }
+                            // x * x * x → Cube (both duplicates are consumed; with a single
+                            // Dup the second Mul multiplies by the value below)
+                            (
+                                Instruction::Dup,
+                                Instruction::Dup,
+                                Instruction::Mul,
+                                Instruction::Mul,
+                            ) => {
+                                result.push(Instruction::Cube);
+                                i += 4;
+                                changed = true;
+                                continue;
+                            }
                             _ => {}
                         }
                     }
 
                     match (instructions[i], instructions[i + 1], instructions[i + 2]) {
-                        // x * x * x → Cube
-                        (Instruction::Dup, Instruction::Mul, Instruction::Mul) => {
-                            result.push(Instruction::Cube);
-                            i += 3;
-                            changed = true;
-                            continue;
-                        }
                         // LoadConst + Swap + Sub → ConstSub or Neg
                         (Instruction::LoadConst(idx), Instruction::Swap, Instruction::Sub) => {
                             if constants[idx as usize] == 0.0 {
@@ -753,9 +759,9 @@ impl CompiledEvaluator {
                                 matched = false;
                             }
                         }
-                        // LoadCached(s) + StoreCached(s) → Dup
+                        // LoadCached(s) + StoreCached(s) → LoadCached(s) (the store is a no-op)
                         (Instruction::LoadCached(s1), Instruction::StoreCached(s2)) if s1 == s2 => {
-                            result.push(Instruction::Dup);
+                            result.push(Instruction::LoadCached(s1));
                         }
                         // Square + Sqrt → Abs
                         (Instruction::Square, Instruction::Sqrt) => {
-- 
2.43.0


From add941d83040956f3a391ffae4f8b42ab60af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 02/24] fix: eval_batch under-reserved a caller-provided SIMD
 stack buffer

---
 src/evaluator/simd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..f15672b 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,8 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                // `reserve` is relative to the length, not to the current capacity
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From 180033ac9d2c2aefeb211dcb546fc92c60e508a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 03/24] fix: recorded stack depth ignored the depth added by
 instruction fusion

---
 src/evaluator/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 83e3a1e..237dd8e 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -244,11 +244,15 @@ impl CompiledEvaluator {
         let optimized_instructions =
             Self::optimize_instructions(instructions, &mut constants, &mut cache_size);
 
+        // Fusion reorders loads and may deepen the stack, so the depth the executors rely on
+        // has to cover the final bytecode as well.
+        let stack_size = max_stack.max(Self::peak_stack_depth(&optimized_instructions));
+
         Ok(Self {
             instructions: optimized_instructions.into_boxed_slice(),
             constants: constants.into_boxed_slice(),
             param_names: param_names.into_boxed_slice(),
-            stack_size: max_stack,
+            stack_size,
             param_count,
             cache_size,
             simd_constants: OnceLock::new(),
@@ -329,6 +333,17 @@ impl CompiledEvaluator {
         instructions
     }
 
+    /// Deepest operand stack reached while running `instructions` from an empty stack.
+    fn peak_stack_depth(instructions: &[Instruction]) -> usize {
+        let mut depth = 0_i32;
+        let mut peak = 0_i32;
+        for instr in instructions {
+            depth += instr.stack_effect();
+            peak = peak.max(depth);
+        }
+        usize::try_from(peak).unwrap_or(0)
+    }
+
     /// Deduplicate constant pool to reduce memory usage and improve cache hits.
     fn deduplicate_constants(instructions: &mut [Instruction], constants: &mut Vec<f64>) {
         use std::collections::HashMap;
-- 
2.43.0


From 305487205304bcc200d2a6afa43a5df418a5e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 04/24] fix: reject columns of unequal lengths in eval_f64

Only the first column was compared with the output, so with 256 points or
more a shorter column panicked while being split into chunks and the
surplus of a longer one was silently ignored.
---
 src/bindings/eval_f64.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..ed6ccee 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -77,7 +77,7 @@ pub fn run_chunked_evaluator(
         if n_points == 0 {
             return Ok(());
         }
-    } else if columns.first().is_some_and(|c| c.len() != n_points) {
+    } else if columns.iter().any(|c| c.len() != n_points) {
         return Err(DiffError::invalid_syntax(
             "Output buffer length must match data column length",
         ));
@@ -118,10 +118,6 @@ fn eval_single_expr_chunked<V: ToParamName>(
         columns[0].len()
     };
 
-    if n_points == 0 {
-        return Ok(Vec::new());
-    }
-
     let evaluator = CompiledEvaluator::compile(expr, vars, None).map_err(|e| {
         DiffError::invalid_syntax(format!("Failed to compile expression {expr_idx}: {e}"))
     })?;
-- 
2.43.0


From f5074b2d2c9d7bd5af7866b2ec1daea76ea78061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 05/24] fix: derivative of cbrt(u) is defined for negative u

---
 src/functions/definitions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..ab65363 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -704,7 +704,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| Some(args[0].cbrt()),
             derivative: |args, arg_primes| {
-                // d/dx cbrt(u) = u' / (3 * u^(2/3))
+                // d/dx cbrt(u) = u' / (3 * cbrt(u)^2), also for negative u
                 let u = Arc::clone(&args[0]);
                 let u_prime = arg_primes[0].clone();
                 Expr::mul_expr(
@@ -712,9 +712,12 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                         Expr::number(1.0),
                         Expr::mul_expr(
                             Expr::number(3.0),
-                            Expr::pow_from_arcs(
-                                u,
-                                Arc::new(Expr::div_expr(Expr::number(2.0), Expr::number(3.0))),
+                            Expr::pow_static(
+                                Expr::func_multi_from_arcs_symbol(
+                                    ks::get_symbol(ks::KS.cbrt),
+                                    vec![u],
+                                ),
+                                Expr::number(2.0),
                             ),
                         ),
                     ),
-- 
2.43.0


From 5352ad383ae8d859cf0972347344e92078645896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 06/24] fix: derivatives of assoc_legendre (|m| = l) and of
 spherical harmonics with negative order

---
 src/functions/definitions.rs | 38 ++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index ab65363..6796ec2 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -1292,28 +1292,32 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                 crate::math::eval_assoc_legendre(l, m, args[2])
             },
             derivative: |args, arg_primes| {
-                // d/dx P_l^m(x) = (l*x*P_l^m(x) - (l+m)*P_{l-1}^m(x)) / (x^2 - 1) * x'
+                // d/dx P_l^m(x) = ((l-|m|+1)*P_{l+1}^m(x) - (l+1)*x*P_l^m(x)) / (x^2 - 1) * x'
+                // (P_{l-1}^m does not exist for |m| = l; negative orders evaluate as |m|)
                 let l = Arc::clone(&args[0]);
                 let m = Arc::clone(&args[1]);
                 let x = Arc::clone(&args[2]);
                 let x_prime = arg_primes[2].clone();
 
+                let l_plus_1 =
+                    Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(1.0))]);
+                let abs_m = Expr::func_multi_from_arcs_symbol(
+                    ks::get_symbol(ks::KS.abs),
+                    vec![Arc::clone(&m)],
+                );
                 let term1 = Expr::mul_expr(
-                    Expr::mul_from_arcs(vec![Arc::clone(&l), Arc::clone(&x)]),
+                    Expr::sub_expr(l_plus_1.clone(), abs_m),
                     Expr::func_multi_from_arcs_symbol(
                         ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::clone(&l), Arc::clone(&m), Arc::clone(&x)],
+                        vec![Arc::new(l_plus_1.clone()), Arc::clone(&m), Arc::clone(&x)],
                     ),
                 );
 
-                let l_plus_m = Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::clone(&m)]);
-                let l_minus_1 =
-                    Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(-1.0))]);
                 let term2 = Expr::mul_expr(
-                    l_plus_m,
+                    Expr::mul_from_arcs(vec![Arc::new(l_plus_1), Arc::clone(&x)]),
                     Expr::func_multi_from_arcs_symbol(
                         ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::clone(&x)],
+                        vec![l, m, Arc::clone(&x)],
                     ),
                 );
 
@@ -1410,7 +1414,14 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                     ]),
                 );
 
-                let l_plus_m = Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::clone(&m)]);
+                // Negative orders evaluate as |m|
+                let l_plus_m = Expr::add_expr(
+                    Expr::unwrap_arc(Arc::clone(&l)),
+                    Expr::func_multi_from_arcs_symbol(
+                        ks::get_symbol(ks::KS.abs),
+                        vec![Arc::clone(&m)],
+                    ),
+                );
                 let term_b = Expr::mul_expr(
                     Expr::div_expr(Expr::mul_expr(y_expr, l_plus_m), sin_theta),
                     Expr::div_expr(p_prev, p_expr),
@@ -1519,7 +1530,14 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                         Arc::new(Expr::func_multi_from_arcs("cot", vec![Arc::clone(&theta)])),
                     ]),
                 );
-                let l_plus_m = Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::clone(&m)]);
+                // Negative orders evaluate as |m|
+                let l_plus_m = Expr::add_expr(
+                    Expr::unwrap_arc(Arc::clone(&l)),
+                    Expr::func_multi_from_arcs_symbol(
+                        ks::get_symbol(ks::KS.abs),
+                        vec![Arc::clone(&m)],
+                    ),
+                );
                 let term_b = Expr::mul_expr(
                     Expr::div_expr(Expr::mul_expr(y_expr, l_plus_m), sin_theta),
                     Expr::div_expr(p_prev, p_expr),
-- 
2.43.0


From b5dd25bc85147b305f862db33351b71ff085d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 07/24] fix: differentiate the base of a polynomial with the
 registered user functions

---
 src/core/poly.rs   | 11 ++++++++++-
 src/diff/engine.rs |  4 +++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..ea88702 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -637,6 +637,15 @@ impl Polynomial {
 
     /// Differentiate with respect to a variable (chain rule)
     pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+        self.derivative_expr_with(diff_var, |base| base.derive_raw(diff_var))
+    }
+
+    /// Differentiate with respect to a variable, given how to differentiate the base
+    pub(crate) fn derivative_expr_with(
+        &self,
+        diff_var: &str,
+        derive_base: impl FnOnce(&Expr) -> Expr,
+    ) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
@@ -644,7 +653,7 @@ impl Polynomial {
         // Check if base contains the differentiation variable
         if self.base.contains_var(diff_var) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = derive_base(&self.base);
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..cf5f807 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -434,7 +434,9 @@ impl Expr {
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => {
+                poly.derivative_expr_with(var, |base| base.derive_impl(var, var_id, ctx))
+            }
         }
     }
 
-- 
2.43.0


From 7b92d1243aebb2ad546ad82b57d47c450e711c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 08/24] fix: compiled acot uses the branch of the function
 table (range (0, pi))

---
 src/evaluator/compiler.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..b922b7b 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,15 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = π/2 - atan(x), with range (0, π)
+            self.emit(Instruction::Atan);
+            self.emit(Instruction::Neg);
+            let idx = self.add_const(std::f64::consts::FRAC_PI_2);
+            self.emit(Instruction::LoadConst(idx));
+            self.push()?;
+            self.emit(Instruction::Add);
+            self.pop();
+            return Ok(());
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From b898aa2c615473c00d75419e0906fbfac19ee6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 09/24] fix: elliptic_e AGM weights (c_n^2 has weight 2^(n-1))
 and E(1) = 1

---
 src/math/elliptic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..e4fbacd 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -49,12 +49,17 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
     if k.abs() > one {
         return Some(T::nan());
     }
+    if k.abs() == one {
+        // the AGM below degenerates (b = 0); E(±1) = 1
+        return Some(one);
+    }
     let mut a = one;
     let mut b = (one - k * k).sqrt();
 
     let k2 = k * k;
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    // weight of c_n^2 is 2^(n-1); c_0 = k is already in `sum`, the loop starts at c_1
+    let mut pow2 = one;
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From d875a11758bea80b0a932b657986b6f56dc161fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 10/24] fix: tetragamma asymptotic expansion had wrong signs
 and powers

---
 src/math/special.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..22eded8 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -193,7 +193,17 @@ pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
         xv += one;
     }
     let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    let ten = T::from(10.0).expect("Failed to convert mathematical constant");
+    let three = T::from(3.0).expect("Failed to convert mathematical constant");
+    let x4 = x2 * x2;
+    let x6 = x4 * x2;
+    // ψ₂(x) ~ -1/x² - 1/x³ - 1/(2x⁴) + 1/(6x⁶) - 1/(6x⁸) + 3/(10x¹⁰) - 5/(6x¹²)
+    Some(
+        r - one / x2 - one / (x2 * xv) - one / (two * x4) + one / (six * x6)
+            - one / (six * x4 * x4)
+            + three / (ten * x4 * x6)
+            - (two + three) / (six * x6 * x6),
+    )
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
-- 
2.43.0


From 1c646947be3477c3202d4b56e760eeb63ce98560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 11/24] fix: sign of the third-derivative stencil of zeta

---
 src/math/special.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 22eded8..2e9ff20 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -542,7 +542,7 @@ fn centered_finite_diff<T: MathScalar>(n: i32, s: T, h: T) -> Option<T> {
         let zeta_minus2 = eval_zeta_reflection_base(s - two * h)?;
         // d³f/dx³ ≈ (f(x+2h) - 2f(x+h) + 2f(x-h) - f(x-2h)) / (2h³)
         return Some(
-            (-zeta_plus2 + two * zeta_plus1 - two * zeta_minus1 + zeta_minus2) / (two * h * h * h),
+            (zeta_plus2 - two * zeta_plus1 + two * zeta_minus1 - zeta_minus2) / (two * h * h * h),
         );
     }
 
-- 
2.43.0


From 854cd72414a5cf2ac5cea4a39c278bea934254bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 12/24] fix: bessel_k1 for x <= 2 uses ln(x/2), not ln(x)

---
 src/math/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..95e7a97 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -686,7 +686,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From 4920a754a79c22623dc9ea2174d58e1e34bd6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 13/24] fix: stray eighth coefficient in the large-x expansions
 of bessel_k0 and bessel_k1

---
 src/math/bessel.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 95e7a97..e5a8c7a 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -630,7 +630,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -638,7 +638,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -670,7 +669,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -678,7 +677,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-- 
2.43.0


From 51e1a691ded6311b0e78f4707f85ec5e5db9a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 14/24] fix: zeta_deriv for s > 1 adds the tail of the
 truncated series

---
 src/math/special.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/math/special.rs b/src/math/special.rs
index 2e9ff20..393adc1 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -401,6 +401,7 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         let mut sum = T::zero();
         let mut compensation = T::zero(); // Kahan summation
         let max_terms = 200;
+        let mut converged = false;
 
         for k in 1..=max_terms {
             let k_t = T::from(k).expect("Failed to convert mathematical constant");
@@ -433,10 +434,33 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
                 && term.abs()
                     < epsilon * T::from_f64(0.01).expect("Failed to convert constant 0.01")
             {
+                converged = true;
                 break;
             }
         }
 
+        // Euler-Maclaurin tail of the truncated series with f(t) = ln(t)^n / t^x, N = max_terms:
+        // Σ_{k>N} f(k) ≈ ∫_N^∞ f(t) dt - f(N)/2 - f'(N)/12
+        if !converged {
+            let twelve = T::from(12.0).expect("Failed to convert mathematical constant");
+            let two = T::from(2.0).expect("Failed to convert mathematical constant");
+            let n_t = T::from(n).expect("Failed to convert mathematical constant");
+            let big_n = T::from(max_terms).expect("Failed to convert mathematical constant");
+            let ln_n = big_n.ln();
+            let m = x - one;
+            let scale = big_n.powf(-m);
+            let mut ln_pow = one;
+            let mut integral = scale / m;
+            for j in 1..=n {
+                let j_t = T::from(j).expect("Failed to convert mathematical constant");
+                ln_pow *= ln_n;
+                integral = (ln_pow * scale + j_t * integral) / m;
+            }
+            let f_n = ln_pow * scale / big_n;
+            let df_n = f_n * (n_t / ln_n - x) / big_n;
+            sum += integral - f_n / two - df_n / twelve;
+        }
+
         // Apply sign: (-1)^n
         let sign = if n % 2 == 0 { one } else { -one };
         Some(sign * sum)
-- 
2.43.0


From a054fb1fb122c485f19d8209c74e0c942c67e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 15/24] fix: erf diverged for |x| > 3 (alternating series cut
 at 30 terms)

---
 src/math/special.rs | 47 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 393adc1..ce91973 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -2,10 +2,9 @@ use crate::core::traits::MathScalar;
 
 /// Error function erf(x) = (2/√π) ∫₀ˣ e^(-t²) dt
 ///
-/// Uses Taylor series expansion: erf(x) = (2/√π) Σₙ (-1)ⁿ x^(2n+1) / (n!(2n+1))
-/// with Kahan summation for numerical stability.
+/// Uses the series erf(x) = (2/√π) e^(-x²) Σₙ 2ⁿ x^(2n+1) / (2n+1)!!, whose terms are all positive.
 ///
-/// Reference: DLMF §7.6.1 <https://dlmf.nist.gov/7.6#E1>
+/// Reference: DLMF §7.6.2 <https://dlmf.nist.gov/7.6#E2>
 pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let sign = x.signum();
     let x = x.abs();
@@ -13,37 +12,27 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let pi = T::PI();
     let sqrt_pi = pi.sqrt();
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
-    let coeff = two / sqrt_pi;
 
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-    let mut factorial = T::one();
-    let mut power = x;
-
-    for n in 0..30 {
-        let two_n_plus_one =
-            T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
-
-        let term = power / (factorial * two_n_plus_one);
-
-        // Overflow protection: break if term becomes NaN or infinite
-        if term.is_nan() || term.is_infinite() {
-            break;
-        }
+    // erf(x) is 1 to double precision from here on
+    let saturation = T::from_f64(6.0).expect("Failed to convert mathematical constant 6.0");
+    if x > saturation {
+        return sign;
+    }
 
-        // Alternating series with Kahan summation
-        let signed_term = if n % 2 == 0 { term } else { -term };
-        let y = signed_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
+    // erf(x) = 2/sqrt(π) · exp(-x²) · Σ 2^n x^(2n+1) / (2n+1)!!  (all terms positive: no cancellation)
+    let x2 = x * x;
+    let coeff = two / sqrt_pi * (-x2).exp();
+    let mut sum = T::zero();
+    let mut term = x;
 
-        let n_plus_one = T::from_usize(n + 1).expect("Failed to convert loop counter to float");
-        factorial *= n_plus_one;
-        power *= x * x;
+    for n in 0..200 {
+        sum += term;
+        let two_n_plus_three =
+            T::from_usize(2 * n + 3).expect("Failed to convert small integer to float");
+        term *= two * x2 / two_n_plus_three;
 
         // Check convergence using machine epsilon
-        if term.abs() < T::epsilon() {
+        if term.abs() < T::epsilon() * sum.abs() {
             break;
         }
     }
-- 
2.43.0


From 99bc75831e1029a3f9661a545d16893ee19e34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 16/24] fix: bessel_i of order >= 2 is normalised by the I_0 of
 the recurrence

---
 src/math/bessel.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index e5a8c7a..121d968 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -470,7 +470,7 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     let mut i_next = T::zero(); // I_{k+1}
     let mut i_curr = T::from(1e-30).expect("Failed to convert mathematical constant"); // I_k (small nonzero to avoid underflow)
     let mut result = T::zero();
-    let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
+    let mut i0_computed = T::zero(); // I_0 of the recurrence, for normalization
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
     // Backward recurrence
@@ -483,11 +483,8 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
             result = i_curr;
         }
 
-        // Accumulate for normalization (using I_0 + 2*sum of even terms)
         if k == 0 {
-            sum += i_curr;
-        } else if k % 2 == 0 {
-            sum += two * i_curr;
+            i0_computed = i_curr;
         }
 
         i_next = i_curr;
@@ -496,9 +493,8 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     }
 
     // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
     let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
+    let scale = i0_actual / i0_computed;
 
     result * scale
 }
-- 
2.43.0


From 15c4323014baa3db76f6ec2cf3501698c33579d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 17/24] fix: bessel_i starts its recurrence at an order that
 grows with x

---
 src/math/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 121d968..e072b41 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -465,6 +465,10 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
     let n_start = n_abs + sqrt_term + 10;
     let n_start = n_start.max(n_abs + 20);
+    // I_N / I_0 ~ exp(-N^2 / (2x)) for large x: N has to grow with sqrt(x) as well
+    let nine = T::from(9.0).expect("Failed to convert mathematical constant");
+    let x_term = (x.abs().sqrt() * nine).to_i32().unwrap_or(0);
+    let n_start = n_start.max(x_term);
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
-- 
2.43.0


From a2b73ace89fd9e0fade744dc6adcbf25bbe84919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 18/24] fix: a fold of a computed value to an integer must not
 take small values for zero

---
 src/simplification/rules/numeric/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..b491d67 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -6,6 +6,12 @@ use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 // ===== Identity Rules for Sum (Priority 100) =====
 
+/// The integer that a computed value stands for, if any: a small value is not a rounded zero
+fn near_integer(x: f64) -> Option<f64> {
+    let n = x.round();
+    ((x - n).abs() <= EPSILON * x.abs().min(1.0)).then_some(n)
+}
+
 rule!(
     SumIdentityRule,
     "sum_identity",
@@ -389,8 +395,8 @@ rule!(
             && *b != 0.0
         {
             let result = a / b;
-            if (result - result.round()).abs() < EPSILON {
-                return Some(Expr::number(result.round()));
+            if let Some(n) = near_integer(result) {
+                return Some(Expr::number(n));
             }
         }
         None
@@ -487,8 +493,8 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let s = n.sqrt();
-            if (s - s.round()).abs() < EPSILON {
-                return Some(Expr::number(s.round()));
+            if let Some(n) = near_integer(s) {
+                return Some(Expr::number(n));
             }
         }
         None
@@ -508,8 +514,8 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let c = n.cbrt();
-            if (c - c.round()).abs() < EPSILON {
-                return Some(Expr::number(c.round()));
+            if let Some(n) = near_integer(c) {
+                return Some(Expr::number(n));
             }
         }
         None
@@ -575,8 +581,8 @@ rule!(
 
                 // Only evaluate if result is an integer
                 // This preserves symbolic forms like sqrt(2), ln(10), etc.
-                if (result - result.round()).abs() < EPSILON {
-                    return Some(Expr::number(result.round()));
+                if let Some(n) = near_integer(result) {
+                    return Some(Expr::number(n));
                 }
 
                 // Non-integer result: keep symbolic form
-- 
2.43.0


From bffa1661baa3db0b0876d37fc7477b5a5f024053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 19/24] fix: roots of powers keep the sign (|x|) and, in
 domain-safe mode, the domain

---
 src/simplification/rules/root/mod.rs | 31 ++++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..6544283 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -10,21 +10,22 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
-            // Special case: sqrt(x^2) should always return abs(x)
             if let AstKind::Number(n) = &exp.kind {
-                // Exact check for power 2.0 (square)
-                #[allow(clippy::float_cmp, reason = "Comparing against exact constant 2.0")]
-                let is_square = *n == 2.0;
-                if is_square {
-                    // sqrt(x^2) = |x|
-                    return Some(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()));
+                // sqrt(x^n) with n/2 odd: |x|^(n/2), and |x| itself for n = 2
+                let half = n / 2.0;
+                if half % 2.0 == 1.0 || half % 2.0 == -1.0 {
+                    let abs_base = Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone());
+                    return Some(Expr::pow_static(abs_base, Expr::number(half)));
                 }
+            } else if context.domain_safe {
+                // The exponent may be even: x^exp is then positive where x^(exp/2) has no value
+                return None;
             }
 
             // Create new exponent: exp / 2
@@ -72,7 +73,7 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
@@ -109,6 +110,13 @@ rule!(
                 return Some(base.as_ref().clone());
             }
 
+            // cbrt is defined for negative arguments, a fractional power is not
+            if context.domain_safe
+                && !matches!(&simplified_exp.kind, AstKind::Number(n) if n.fract() == 0.0)
+            {
+                return None;
+            }
+
             return Some(Expr::pow_static(base.as_ref().clone(), simplified_exp));
         }
         None
@@ -190,7 +198,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +207,8 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt && !context.domain_safe {
+                // cbrt is defined for negative arguments, the power 1/3 is not
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From cbedc2f42930d1b106085155024cf69904e6508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 20/24] fix: power of a power or of a quotient keeps the sign
 (|x|) and, in domain-safe mode, the domain

---
 src/simplification/rules/algebraic/powers.rs | 92 +++++++++++---------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..8f90b8e 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -4,6 +4,11 @@ use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
 
+/// Even integer other than zero
+fn is_even_integer(n: f64) -> bool {
+    n != 0.0 && n % 2.0 == 0.0
+}
+
 rule!(
     PowerZeroRule,
     "power_zero",
@@ -45,52 +50,47 @@ rule!(
     75,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
-            // Check for special case: (x^even)^(1/even) where result would be x^1
-            if let AstKind::Number(inner_n) = &exp_inner.kind {
-                // Exact comparison for integer check, cast for modulo
-                #[allow(
-                    clippy::float_cmp,
-                    clippy::cast_possible_truncation,
-                    reason = "Exact check for integer, cast for modulo"
-                )]
-                // Exact check for integer, cast for modulo
-                let inner_is_even =
-                    *inner_n > 0.0 && inner_n.fract() == 0.0 && (*inner_n as i64) % 2 == 0;
-
-                if inner_is_even {
-                    if let AstKind::Div(num, den) = &v.kind
-                        && let (AstKind::Number(num_val), AstKind::Number(den_val)) =
-                            (&num.kind, &den.kind)
-                        && {
-                            // Exact check for 1.0 numerator in exponent fraction
-                            #[allow(
-                                clippy::float_cmp,
-                                reason = "Comparing against exact constant 1.0"
-                            )]
-                            let is_one = *num_val == 1.0;
-                            is_one
-                        }
-                        && (*den_val - *inner_n).abs() < EPSILON
-                    {
-                        return Some(Expr::func_multi_from_arcs_symbol(
-                            ks::get_symbol(ks::KS.abs),
-                            vec![Arc::clone(base)],
-                        ));
+            // (x^even)^v is |x|^(even*v): the sign of x only cancels when even*v is an even integer
+            if let AstKind::Number(inner_n) = &exp_inner.kind
+                && is_even_integer(*inner_n)
+            {
+                let outer = match &v.kind {
+                    AstKind::Number(n) => Some(*n),
+                    AstKind::Div(num, den) => match (&num.kind, &den.kind) {
+                        (AstKind::Number(n), AstKind::Number(d)) => Some(n / d),
+                        _ => None,
+                    },
+                    _ => None,
+                };
+                let product = outer.map(|o| inner_n * o);
+                let needs_abs = product.map_or(context.domain_safe, |p| {
+                    let nearest = p.round();
+                    if (p - nearest).abs() < EPSILON {
+                        nearest % 2.0 != 0.0
+                    } else {
+                        context.domain_safe
                     }
-                    if let AstKind::Number(outer_n) = &v.kind {
-                        let product = inner_n * outer_n;
-                        if (product - 1.0).abs() < EPSILON {
-                            return Some(Expr::func_multi_from_arcs_symbol(
-                                ks::get_symbol(ks::KS.abs),
-                                vec![Arc::clone(base)],
-                            ));
-                        }
+                });
+                if needs_abs {
+                    let abs_base = Expr::func_multi_from_arcs_symbol(
+                        ks::get_symbol(ks::KS.abs),
+                        vec![Arc::clone(base)],
+                    );
+                    if product.is_some_and(|p| (p - 1.0).abs() < EPSILON) {
+                        return Some(abs_base);
                     }
+                    let new_exp =
+                        Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
+                    return Some(Expr::pow_from_arcs(Arc::new(abs_base), Arc::new(new_exp)));
                 }
+            } else if context.domain_safe && !matches!(&v.kind, AstKind::Number(n) if n.fract() == 0.0)
+            {
+                // x^a may be positive where x is negative: x^(a*v) can lose those points
+                return None;
             }
 
             // Create new exponent: exp_inner * v using Product
@@ -463,10 +463,20 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
+            // With both parts negative the quotient has a root that neither part has
+            let den_is_positive = match &den.kind {
+                AstKind::Number(d) => *d > 0.0,
+                AstKind::Pow(_, e) => matches!(&e.kind, AstKind::Number(n) if is_even_integer(*n)),
+                _ => false,
+            };
+            if context.domain_safe && !den_is_positive {
+                return None;
+            }
+
             let is_root_exponent = match &exp.kind {
                 AstKind::Div(n, d) => {
                     // Exact check for 1/n root exponent
-- 
2.43.0


From 65590c87f8dda5d26b8eec6893b7e4ec63ef42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 21/24] fix: e^(-x) - e^x is the sinh pattern of -x, not of x

---
 src/simplification/rules/hyperbolic/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..20efd70 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches (with its sign: e^(-x) - e^x is the pattern of -x)
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(exp1.arg);
     }
     None
 }
-- 
2.43.0


From 4444ce72a54ed95337d131e1e7dce1b80b07b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 22/24] fix: keep small polynomial coefficients and exponents
 beyond u32

Coefficients were compared with an absolute tolerance, so terms such as
1e-20*x were dropped; exponents and degrees beyond u32 saturated or overflowed.
---
 src/core/poly.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index ea88702..6bce669 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -27,6 +27,16 @@ pub struct Polynomial {
     terms: Vec<(u32, f64)>,
 }
 
+/// Sum of two coefficients; rounding noise left where they cancel counts as zero
+fn add_coeffs(a: f64, b: f64) -> f64 {
+    let sum = a + b;
+    if sum.abs() < EPSILON * a.abs().max(b.abs()) {
+        0.0
+    } else {
+        sum
+    }
+}
+
 /// Helper to format coefficient
 fn format_coeff(n: f64) -> String {
     if {
@@ -128,7 +138,7 @@ impl Polynomial {
 
     /// Create a constant polynomial
     pub fn constant(c: f64) -> Self {
-        if c.abs() < EPSILON {
+        if c == 0.0 {
             // Zero polynomial - use dummy base
             Self {
                 base: Arc::new(Expr::number(1.0)),
@@ -152,7 +162,7 @@ impl Polynomial {
 
     /// Create polynomial: coeff * base^pow
     pub fn term(base: Arc<Expr>, pow: u32, coeff: f64) -> Self {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             Self::zero(base)
         } else {
             Self {
@@ -256,13 +266,13 @@ impl Polynomial {
 
     /// Add a term (power, coeff) to the polynomial
     pub(crate) fn add_term(&mut self, pow: u32, coeff: f64) {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             return;
         }
         match self.terms.binary_search_by_key(&pow, |(p, _)| *p) {
             Ok(i) => {
-                self.terms[i].1 += coeff;
-                if self.terms[i].1.abs() < EPSILON {
+                self.terms[i].1 = add_coeffs(self.terms[i].1, coeff);
+                if self.terms[i].1 == 0.0 {
                     self.terms.remove(i);
                 }
             }
@@ -294,9 +304,7 @@ impl Polynomial {
             let my_const = self.as_constant().unwrap_or(0.0);
             self.base = Arc::clone(&other.base);
             self.terms.clone_from(&other.terms);
-            if my_const.abs() >= EPSILON {
-                self.add_term(0, my_const);
-            }
+            self.add_term(0, my_const);
             return true;
         }
 
@@ -366,16 +374,16 @@ impl Polynomial {
         if let Some(&(mut current_pow, mut current_coeff)) = all_terms.first() {
             for &(next_pow, next_coeff) in all_terms.iter().skip(1) {
                 if next_pow == current_pow {
-                    current_coeff += next_coeff;
+                    current_coeff = add_coeffs(current_coeff, next_coeff);
                 } else {
-                    if current_coeff.abs() >= EPSILON {
+                    if current_coeff != 0.0 {
                         merged_terms.push((current_pow, current_coeff));
                     }
                     current_pow = next_pow;
                     current_coeff = next_coeff;
                 }
             }
-            if current_coeff.abs() >= EPSILON {
+            if current_coeff != 0.0 {
                 merged_terms.push((current_pow, current_coeff));
             }
         }
@@ -388,7 +396,7 @@ impl Polynomial {
 
     /// Multiply by a scalar
     pub fn scale(&self, scalar: f64) -> Self {
-        if scalar.abs() < EPSILON {
+        if scalar == 0.0 {
             return Self::zero(Arc::clone(&self.base));
         }
         Self {
@@ -412,7 +420,7 @@ impl Polynomial {
     /// Make polynomial monic (leading coefficient = 1)
     pub fn make_monic(&self) -> Self {
         let lc = self.leading_coeff();
-        if lc.abs() < EPSILON || (lc - 1.0).abs() < EPSILON {
+        if lc == 0.0 || (lc - 1.0).abs() < EPSILON {
             return self.clone();
         }
         self.scale(1.0 / lc)
@@ -536,9 +544,10 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= f64::from(u32::MAX)
                     && n.fract().abs() < EPSILON
                 {
-                    // Exponent n >= 0 is already validated
+                    // Exponent range 0..=u32::MAX is already validated
                     #[allow(
                         clippy::float_cmp,
                         clippy::cast_possible_truncation,
@@ -559,7 +568,7 @@ impl Polynomial {
             // Division by constant
             ExprKind::Div(num, den) => {
                 if let ExprKind::Number(d) = &den.kind
-                    && d.abs() > EPSILON
+                    && *d != 0.0
                 {
                     let mut result = Self::try_from_expr(num)?;
                     result = result.scale(1.0 / d);
@@ -586,7 +595,9 @@ impl Polynomial {
 
         // Same base: normal multiply
         // Arc::ptr_eq provides O(1) short-circuit for squaring (p.mul(&p)) and cloned polynomials
-        if Arc::ptr_eq(&a.base, &b.base) || a.base == b.base {
+        if (Arc::ptr_eq(&a.base, &b.base) || a.base == b.base)
+            && a.degree().checked_add(b.degree()).is_some()
+        {
             return Some(a.mul(b));
         }
 
-- 
2.43.0


From 6cdfd540d6012625d438ab433d4cacfe95ffd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 23/24] fix: constructors keep small and non-finite numbers

An absolute tolerance treated numbers such as 6.6e-34 as zero, dropped them from
sums and rounded powers such as (1e-8)^2 to zero.
---
 src/core/expr/constructors.rs | 38 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..597ff2b 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -56,10 +56,12 @@ impl Expr {
         }
     }
 
-    /// Check if this expression is the number zero (with tolerance)
+    /// Check if this expression is the number zero
+    ///
+    /// Exact: a tiny number is still a coefficient that other factors may scale up.
     #[inline]
     pub fn is_zero_num(&self) -> bool {
-        self.as_number().is_some_and(crate::core::traits::is_zero)
+        self.as_number().is_some_and(|n| n == 0.0)
     }
 
     /// Check if this expression is the number one (with tolerance)
@@ -154,12 +156,16 @@ impl Expr {
 
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
                 match t.into_kind() {
                     ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => numeric_sum += n,
+                    ExprKind::Number(n) => {
+                        numeric_sum += n;
+                        numeric_scale = numeric_scale.max(n.abs());
+                    }
                     // Invariant protected by if guard
                     _ => {}
                 }
@@ -169,7 +175,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -218,11 +224,13 @@ impl Expr {
         // Flatten nested sums and combine numbers
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             // Check for Number
             if let ExprKind::Number(n) = t.kind {
                 numeric_sum += n;
+                numeric_scale = numeric_scale.max(n.abs());
                 continue;
             }
 
@@ -249,7 +257,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -359,7 +367,7 @@ impl Expr {
         }
 
         // Add numeric coefficient (canonical order: numbers first)
-        if (numeric_prod - 1.0).abs() > EPSILON {
+        if numeric_prod.is_nan() || (numeric_prod - 1.0).abs() > EPSILON {
             flat.push(Arc::new(Self::number(numeric_prod)));
         }
 
@@ -452,8 +460,8 @@ impl Expr {
 
         // Fast path: Poly * Poly with same base uses polynomial multiplication
         if let (ExprKind::Poly(p1), ExprKind::Poly(p2)) = (&left.kind, &right.kind) {
-            // Only use polynomial mul if bases match
-            if p1.base() == p2.base() {
+            // Only use polynomial mul if bases match and the degree is representable
+            if p1.base() == p2.base() && p1.degree().checked_add(p2.degree()).is_some() {
                 let result = p1.mul(p2);
                 return Self::poly(result);
             }
@@ -569,12 +577,11 @@ impl Expr {
         // Constant folding: n^m only when both are integers and exponent >= 1
         // This preserves sqrt(2), cbrt(3), etc. as symbolic
         if let (Some(b), Some(e)) = (base.as_number(), exponent.as_number()) {
-            // Only fold if exponent is a positive integer
-            if e >= 1.0 && e.fract().abs() < EPSILON {
+            // Only fold if both are integers and the result is finite
+            if e >= 1.0 && e.fract() == 0.0 && b.fract() == 0.0 {
                 let result = b.powf(e);
-                // Only fold if result is also an integer (or very close)
-                if result.fract().abs() < EPSILON {
-                    return Self::number(result.round());
+                if result.is_finite() {
+                    return Self::number(result);
                 }
             }
         }
@@ -689,6 +696,11 @@ impl Expr {
 // HELPER FUNCTIONS
 // =============================================================================
 
+/// Whether a sum of numbers is zero up to the rounding of its largest term
+fn is_cancelled(sum: f64, scale: f64) -> bool {
+    sum == 0.0 || sum.abs() < EPSILON * scale
+}
+
 /// Finalize a sum expression from a flattened list of terms
 fn finalize_sum(mut flat: Vec<Arc<Expr>>) -> Expr {
     let len = flat.len();
-- 
2.43.0


From bf428959b12c49470f64343765abe2fdf0b88611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 24/24] fix: powers of dual numbers at zero and negative bases

---
 src/math/dual.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..f531459 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,6 +401,10 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
+        if n == 0 {
+            // x^0 = 1 everywhere; 0 * x^(-1) would be NaN at x = 0
+            return Self::one();
+        }
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
         let val_pow_minus_1 = self.val.powi(n - 1);
@@ -408,8 +412,20 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        let val = self.val.powf(n.val);
+        // n * x^(n-1) * x': no logarithm of the base, which may be negative or zero
+        let base_part = if n.val.is_zero() || self.eps.is_zero() {
+            T::zero()
+        } else {
+            self.eps * n.val * self.val.powf(n.val - T::one())
+        };
+        // x^n * ln(x) * n': only where the exponent varies; vanishes with x^n
+        let exp_part = if n.eps.is_zero() || val.is_zero() {
+            T::zero()
+        } else {
+            n.eps * val * self.val.ln()
+        };
+        Self::new(val, base_part + exp_part)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0

