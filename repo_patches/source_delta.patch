From 777fd757f5c434c95a7391f54f4d5d9a883668f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 01/10] fix: report mismatched buffer lengths in Add, Sub and
 Mul instead of panicking

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From 95bba961ef1e3213d470bf4396b72a50cedc21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 02/10] fix: keep the operand order when zipping a scalar with
 an array of rank two or more

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From c7d6b3454a2787fc49528d9ee8a4d2509c88cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 03/10] fix: contract a vector with a non-square matrix over
 the shared axis

---
 aegir/src/buffers/arrays/contraction_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..8360efa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,7 +187,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
-- 
2.43.0


From f38e22517965ce49cacca25312f3903ace04bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 04/10] fix: restrict the constant-times-diagonal contraction
 shortcuts to square matrices

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 8360efa..249deaa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -150,7 +150,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
@@ -194,7 +194,7 @@ impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 946eb65f56c9ba5d80061b917f864172289803cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 05/10] fix: scale the adjoint when a dual number is multiplied
 by a plain value

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..4de2d82 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer + std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, V>, MulOut<A, V>>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer + std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, &'a V>, MulOut<A, &'a V>>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 1861f66e32c9c7c25484843dfa9c420e1a259f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 06/10] fix: evaluate powers of a constant zero base instead of
 always returning zero

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From 05d6e093c29cbeddfc64e03512783ceca3b3aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 07/10] fix: print identifiers without an explicit symbol, and
 sigma, tau and upsilon, as themselves

---
 aegir/src/lib.rs        | 2 +-
 aegir_derive/src/ids.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From de5a9d91dd5ce3691371dc830f07daec3b3d5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 08/10] fix: print expressions so that the text denotes the
 function that is evaluated

---
 aegir/src/fmt.rs                   |  2 +-
 aegir/src/meta/constant.rs         |  8 ++++----
 aegir/src/ops/arithmetic/binary.rs | 11 +++++++----
 aegir/src/ops/arithmetic/unary.rs  | 12 ++++++------
 aegir/src/ops/logarithmic.rs       |  4 ++--
 aegir/src/ops/special.rs           | 13 ++++++++++---
 aegir/src/ops/trig.rs              | 12 ++++++------
 7 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..dcb62fe 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,10 +101,10 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
-        Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
-        })
+        let text = self.0.to_string();
+        let needs_wrap = text.starts_with('-');
+
+        Expr::Text(PreWrap { text, needs_wrap })
     }
 }
 
diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..dae9a5f 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,13 +153,16 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
             (One, _) => One,
             (l, One) => l,
+            (Zero, Text(r)) => Text(PreWrap {
+                text: format!("0^{}", r.to_safe_string('(', ')')),
+                needs_wrap: true,
+            }),
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -412,13 +415,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..fdba250 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -295,11 +295,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..32b1766 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -26,7 +26,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-\u{221E}".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..f3fce0a 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -52,10 +52,13 @@ impl_unary!(
 
         match self.0.to_expr() {
             Zero => Text(PreWrap {
-                text: "\u{221E}".to_string(),
+                text: "-\u{221E}".to_string(),
+                needs_wrap: true,
+            }),
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..dc8945e 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -83,7 +83,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{1D456}\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -153,10 +153,10 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From fe981bdb8472cbc1af2004ba9946c50068ef4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 09/10] fix: multiply constants before counting them in
 contractions

A contraction of two constant buffers computed (n * x) * y, which overflows
when n * x does even if the contraction itself is representable: with
x = 1e308, y = 0.1 and n = 2 the structured form gave infinity where the
dense form gives 2e307, and with y = 0 it gave NaN instead of 0.
---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 249deaa..deae6b7 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -135,7 +135,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * (fx * fy))),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
         (x, y) => x.unwrap().zip_fold(&y.unwrap(), F::zero(), |acc, (xi, yi)| acc + xi * yi).map(Raw),
@@ -178,7 +178,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * (fx * fy))),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
 
-- 
2.43.0


From 2d3cea4c186f4fe6362b011456a840f673497e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 10/10] fix: sum and dot product of constant buffers panicked
 where the scalar type cannot represent the number of entries

---
 aegir/src/buffers/arrays/contraction_ops.rs |  6 +++---
 aegir/src/buffers/mod.rs                    | 10 ++++++++++
 aegir/src/ops/arithmetic/unary.rs           |  5 ++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index deae6b7..07ac13c 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -1,6 +1,6 @@
 #![allow(unused, unused_mut)]
 use super::*;
-use crate::buffers::{Spec, Contract, shapes::ShapeOf};
+use crate::buffers::{sum_of_copies, Spec, Contract, shapes::ShapeOf};
 use num_traits::FromPrimitive;
 
 macro_rules! impl_contract {
@@ -135,7 +135,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * (fx * fy))),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, sum_of_copies(N, fx * fy))),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
         (x, y) => x.unwrap().zip_fold(&y.unwrap(), F::zero(), |acc, (xi, yi)| acc + xi * yi).map(Raw),
@@ -178,7 +178,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * (fx * fy))),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, sum_of_copies(Z, fx * fy))),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
 
diff --git a/aegir/src/buffers/mod.rs b/aegir/src/buffers/mod.rs
index 2bda1a6..98be33d 100644
--- a/aegir/src/buffers/mod.rs
+++ b/aegir/src/buffers/mod.rs
@@ -568,6 +568,16 @@ pub trait Contract<RHS: Buffer<Field = Self::Field>, const AXES: usize = 1>: Buf
     ) -> Result<shapes::ShapeOf<Self::Output>, IncompatibleShapes<Self::Shape, RHS::Shape>>;
 }
 
+/// Return the sum of `n` copies of `x`.
+///
+/// The sum may well be representable when `n` itself is not, as for 300 zeroes of type `u8`.
+pub(crate) fn sum_of_copies<F: Scalar + num_traits::FromPrimitive>(n: usize, x: F) -> F {
+    match F::from_usize(n) {
+        Some(n) => n * x,
+        None => (0..n).fold(F::zero(), |acc, _| acc + x),
+    }
+}
+
 /// Return the contraction of two buffers.
 pub fn contract<const AXES: usize, X, Y>(x: X, y: Y) -> Result<X::Output, IncompatibleShapes<X::Shape, Y::Shape>>
 where
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fdba250..5e2f302 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -1,5 +1,5 @@
 use crate::{
-    buffers::{Buffer, Scalar, Spec, shapes::{S0, Shape, ShapeOf}},
+    buffers::{sum_of_copies, Buffer, Scalar, Spec, shapes::{S0, Shape, ShapeOf}},
     Contains,
     Context,
     Differentiable,
@@ -248,8 +248,7 @@ where
         use Spec::*;
 
         Ok(match self.0.evaluate_spec(ctx)? {
-            // TODO: replace unwrap with error propagation.
-            Full(sh, val) => Full(S0, F::from_usize(sh.cardinality()).unwrap() * val),
+            Full(sh, val) => Full(S0, sum_of_copies(sh.cardinality(), val)),
             spec => Raw(spec.unwrap().sum()),
         })
     }
-- 
2.43.0

