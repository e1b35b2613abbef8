From 517c5b40ebac69eded915603a4316dd053090077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 01/35] fix: power_iu gives a^0 = 1 and a^1 = a

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From 060eb533ae49d6ae722513549777aad1dc427aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 02/35] fix: modulo_division multiplies by the coefficient of
 the divisor

---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 3c95b1211367f921c68ca194653692fdb1aaa8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 03/35] fix: chinese_remainder solves the empty system instead
 of panicking

---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..19abe9d 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop().unwrap_or_else(BigInt::zero);
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From f19e200a155e5e2526dc2563b4c643ce7911e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 04/35] fix: factorial of every negative integer is complex
 infinity

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..f8db482 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -10,7 +10,7 @@ use num::{BigInt, ToPrimitive};
 // ```
 
 use crate::Error::{ComplexInfinity, OverFlow};
-use num::{BigUint, One};
+use num::{BigUint, One, Signed};
 
 /// TODO:  Parallel Prime Swing Algorithm
 /// http://www.luschny.de/math/factorial/FastFactorialFunctions.htm
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From b54dde6186c5fc53fb8ff8f7a9de17f05b3cc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 05/35] fix: fibonacci_i answers negative indices

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..067d0a9 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs()));
+            if s < 0 && s.is_even() { Ok(-u) } else { Ok(u) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From 32737f2633a106d377a2808e93d89ee0bca790ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 06/35] fix: prime sums up to 0 are 0 instead of a panic

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..a05ba0b 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From 494b1ec487a631d410c5fca5428783d007990b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 07/35] fix: prime sums no longer overflow 64 bits from n =
 2^32 on

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index a05ba0b..9917e07 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -10,21 +10,26 @@ use itertools::Itertools;
 use num::{integer::Roots, BigInt, Signed, ToPrimitive};
 use std::{collections::BTreeMap, str::FromStr};
 
-#[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    prime_sum_u128(n).to_u64().expect("the sum of primes exceeds 64 bits")
+}
+
+// the partial sums run up to n^2 / 2, which does not fit 64 bits from n = 2^32 on
+#[rustfmt::skip]
+fn prime_sum_u128(n: u64) -> u128 {
     if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    let mut s: BTreeMap<u64, u128> = v.iter().copied().map(|i| (i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
             let (sp, p2) = (s[&(p - 1)], p * p);
             for &ve in &v {
                 if ve < p2 { break; }
-                *s.get_mut(&ve).unwrap() -= p * (s[&(ve / p)] - sp);
+                *s.get_mut(&ve).unwrap() -= p as u128 * (s[&(ve / p)] - sp);
             }
         }
     }
@@ -79,7 +84,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From 03b56c3b5edcaff128567a983dfe9dfa296c754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/35] fix: powers with negative or huge exponents are no
 longer their base, 0^0 is refused

---
 projects/sm-ast/src/evaluate/forward.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..780ec00 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -2,7 +2,7 @@ use crate::{
     ast::{Parameter, Symbol},
     internal, Context, SMError, SMResult, AST,
 };
-use num::{traits::Pow, ToPrimitive};
+use sm_algorithm::power_iu;
 
 type S = SMResult<AST>;
 
@@ -93,9 +93,9 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
-        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
-            Some(s) => AST::Integer(lhs.pow(s)),
+        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_biguint() {
+            None => return Err(SMError::Unimplemented(unimplemented_function!())),
+            Some(s) => AST::Integer(power_iu(lhs, &s)?),
         },
         _ => {
             return Err(SMError::Unimplemented(unimplemented_function!()));
-- 
2.43.0


From 69788e4c4fa8ce25cee418e095403b700a8bd3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/35] fix: factorial, fibonacci and prime_sum refuse what is
 not an integer

---
 projects/sm-ast/src/internal/elementary.rs    | 8 +++-----
 projects/sm-ast/src/internal/number_theory.rs | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -63,16 +63,14 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..acd8dec 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -40,7 +40,6 @@ pub fn factor_integer(expr: &AST) -> SMResult<AST> {
 pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 6222ad1bd09ebd32e297469afae211c99f62193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 10/35] fix: length, first and last refuse what is not a string
 instead of panicking

---
 projects/sm-ast/src/internal/list_like.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..1e65ec5 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.len())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
-- 
2.43.0


From 9fd84499dbb93e9057241a8f8aa5ea095f5355bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 11/35] fix: functions of one argument refuse other numbers of
 arguments

---
 projects/sm-ast/src/evaluate/forward.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 780ec00..9d38afa 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -56,11 +56,11 @@ impl AST {
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
     let out = match f.name.as_str() {
-        "first" => internal::first(&args[0])?,
-        "last" => internal::last(&args[0])?,
-        "length" => internal::length(&args[0])?,
-        "factorial" => internal::factorial(&args[0])?,
-        "fibonacci" => internal::fibonacci(&args[0])?,
+        "first" => internal::first(unary(&args)?)?,
+        "last" => internal::last(unary(&args)?)?,
+        "length" => internal::length(unary(&args)?)?,
+        "factorial" => internal::factorial(unary(&args)?)?,
+        "fibonacci" => internal::fibonacci(unary(&args)?)?,
         "plus" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
@@ -71,6 +71,14 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     Ok(out)
 }
 
+/// the only argument of a function that takes one
+fn unary(args: &[AST]) -> SMResult<&AST> {
+    match args {
+        [arg] => Ok(arg),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
+    }
+}
+
 fn evaluate_additive(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),
-- 
2.43.0


From 100b7b88bc8b1da9a63de9b5d96766e78deae9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 12/35] fix: displayed expressions keep their grouping

---
 projects/sm-ast/src/ast/traits.rs | 37 ++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..88c8d7f 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use bigdecimal::BigDecimal;
 use itertools::Itertools;
-use num::{BigInt, One, Zero};
+use num::{BigInt, One, Signed, Zero};
 use std::{
     fmt,
     fmt::{Display, Formatter},
@@ -21,14 +21,16 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{0}({1})", o, arg) } else { write!(f, "{0}{1}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                let nested = arg.precedence() < *p || (arg.precedence() == *p && !arg.chains_with(o, i == 0));
+                                if nested { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +38,8 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.is_atom() { write!(f, "{1}{0}", o, arg) } else { write!(f, "({1}){0}", o, arg) };
                         }
                     }
                 }
@@ -113,6 +116,30 @@ impl AST {
         }
         return 255;
     }
+    /// whether an operand needs no brackets beside an infix operator of its own precedence
+    fn chains_with(&self, operator: &str, leftmost: bool) -> bool {
+        let inner = match self {
+            AST::Function(Symbol { kind: SymbolKind::Infix(o, _), .. }, ..) => o.as_ref(),
+            _ => return true,
+        };
+        match (operator, inner) {
+            ("+", "+") | ("*", "*") => true,
+            // `^` groups to the right
+            ("^", "^") => !leftmost,
+            // `/` binds tighter than `*` when it is read
+            ("/", "*") => false,
+            ("+", "-") | ("-", "+") | ("-", "-") | ("*", "/") | ("/", "/") => leftmost,
+            _ => false,
+        }
+    }
+    /// whether a suffix operator can follow without brackets
+    fn is_atom(&self) -> bool {
+        match self {
+            AST::Function(s, _) => !s.is_prefix() && !s.is_infix() && !s.is_suffix(),
+            AST::Integer(n) => !n.is_negative(),
+            _ => true,
+        }
+    }
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From e76804784946d0b64131323d2a490affedb26b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 13/35] fix: options that no function knows are refused instead
 of ignored

---
 projects/sm-ast/src/evaluate/forward.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 9d38afa..c2c2661 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -54,6 +54,9 @@ impl AST {
 // return new;
 // }
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
+    if !p.options.is_empty() {
+        return Err(SMError::Unimplemented(unimplemented_function!()));
+    }
     let args = p.arguments;
     let out = match f.name.as_str() {
         "first" => internal::first(unary(&args)?)?,
-- 
2.43.0


From 8d1acf341508b8b3d286127e19cfda18a805bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 14/35] fix: empty statements and calls can be displayed

---
 projects/sm-ast/src/ast/traits.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 88c8d7f..72b577f 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,12 +13,19 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
+            AST::EmptyStatement => Ok(()),
             AST::Program(_) => unimplemented!(),
             AST::Function(s, ps) => {
                 match &s.kind {
-                    SymbolKind::Normal => unimplemented!(),
-                    SymbolKind::Alias => unimplemented!(),
+                    SymbolKind::Normal | SymbolKind::Alias => {
+                        write!(f, "{}", s)?;
+                        for p in ps {
+                            let args = p.arguments.iter().map(|v| format!("{}", v));
+                            let options = p.options.iter().map(|(k, v)| format!("{}: {}", k, v));
+                            write!(f, "({})", args.chain(options).join(", "))?;
+                        }
+                        return Ok(());
+                    }
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
                             let arg = &ps[0].arguments[0];
-- 
2.43.0


From 56c4ac9d312da0a3b5e48d03fa8282856d7a1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 15/35] fix: an underscore after the radix mark no longer
 panics

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..d847266 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -364,7 +364,7 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let i = BigInt::from_str_radix(&s[2..].replace('_', ""), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From 37aa14328f6490b752a2302e62ddd485a5aa878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 16/35] fix: Runner::last reports that there is no output
 instead of panicking

---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..99c2cfd 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("The last evaluation has no output"))),
+        }
     }
 }
-- 
2.43.0


From cdd48829d974e4547053d594c877660a00735955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 17/35] fix: fractions may start with zeros, as in 1.05

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..6f77739 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..aaca773 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From f4cc717fddbdf748ae3b1a977114e026596b03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 18/35] fix: %%% comments are skipped like the others

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6f77739..3312d0a 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -182,7 +182,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = @{ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index aaca773..6421cc8 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -575,7 +575,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.rule(Rule::MultiLineComment, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 3df04d6f7f0138efe72ad0a8569e175891ab9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 19/35] fix: calls, fractions and radix literals can stand in a
 product without *

---
 projects/sm-ast/src/parser/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index d847266..492c8ae 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,15 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => {
+                    stack.push(self.parse_decimal(pair));
+                }
+                Rule::Byte => {
+                    stack.push(self.parse_byte(pair));
+                }
+                Rule::apply_call => {
+                    stack.push(self.parse_apply_call(pair));
+                }
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From ac2ca4a60b6a1c464a57556eb22adf2647148ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 20/35] =?UTF-8?q?fix:=20the=20slots=20##1=20and=20the=20pr?=
 =?UTF-8?q?efix=20=C2=AC=20no=20longer=20panic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs   | 2 +-
 projects/sm-ast/src/parser/parse.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..7291f0d 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -5,7 +5,7 @@ pub fn prefix_map(text: &str) -> Symbol {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
-        "!" => "not",
+        "!" | "¬" => "not",
         _ => unreachable!(),
     };
     Symbol {
diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 492c8ae..75f0fef 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -353,7 +353,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From 454d974733d62fde7d58112aa8dd598b74790e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 21/35] fix: a dot before a literal no longer panics

---
 projects/sm-ast/src/parser/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 75f0fef..fa7cf8a 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -148,7 +148,10 @@ impl ParserSettings {
                 let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
                 AST::Function(s, vec![p])
             }
-            _ => unreachable!(),
+            _ => {
+                let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
+                AST::Function(infix_map("."), vec![p])
+            }
         };
     }
 
-- 
2.43.0


From 5a3e23aa9fc1ef0d97aa0bb7a7cf68ffe4d0e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 22/35] fix: syntax without a meaning yet is reported instead
 of dropped or a panic

---
 projects/sm-ast/src/parser/parse.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index fa7cf8a..571f80b 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -14,6 +14,22 @@ use std::{
     str::FromStr,
 };
 
+/// whether the parser can convert this part of the syntax tree
+fn is_supported(pair: &Pair<Rule>) -> bool {
+    match pair.as_rule() {
+        // statements other than expressions
+        Rule::importStatement | Rule::classStatement | Rule::traitStatement | Rule::extendStatement => false,
+        Rule::re_control | Rule::if_statement | Rule::for_statement => false,
+        Rule::assign_pair | Rule::defineStatement | Rule::assignStatement | Rule::annotation => false,
+        // infix operators without a precedence
+        Rule::Set | Rule::CenterDot | Rule::Kronecker | Rule::TensorProduct | Rule::Quotient | Rule::Modulo => false,
+        Rule::Grater | Rule::GraterEqual | Rule::Equal => false,
+        Rule::derivative | Rule::dict => false,
+        Rule::Suffix => pair.as_str() == "!" || pair.as_str() == "!!",
+        _ => true,
+    }
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -28,13 +44,18 @@ impl ParserSettings {
 
     pub fn parse(&self, text: &str) -> SMResult<AST> {
         let pairs = SMParser::parse(Rule::program, text)?;
+        for pair in pairs.clone().flatten() {
+            if !is_supported(&pair) {
+                return Err(SMError::Unimplemented(format!("{:?} in `{}`", pair.as_rule(), pair.as_str())));
+            }
+        }
         for pair in pairs {
             match pair.as_rule() {
                 Rule::EOI => continue,
                 Rule::expression => {
                     return Ok(self.parse_expression(pair).0);
                 }
-                Rule::COMMENT => continue,
+                Rule::COMMENT | Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From 9ba5ce0194900be2abe795a759574e826c4bef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 23/35] =?UTF-8?q?fix:=20=C3=97=20and=20=C3=B7=20are=20the?=
 =?UTF-8?q?=20same=20operators=20as=20*=20and=20/?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 7291f0d..cff71ce 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -31,6 +31,12 @@ pub fn suffix_map(text: &str) -> Symbol {
 }
 
 pub fn infix_map(text: &str) -> Symbol {
+    // other spellings of the same operator
+    let text = match text {
+        "×" => "*",
+        "÷" => "/",
+        _ => text,
+    };
     let (n, p) = match text {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
-- 
2.43.0


From 40e798a7172b4d65dd1726bdc77391412446d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 24/35] fix: a text of several expressions keeps all of them

---
 projects/sm-ast/src/ast/traits.rs       |  2 +-
 projects/sm-ast/src/evaluate/forward.rs |  8 +++++++-
 projects/sm-ast/src/parser/parse.rs     | 11 +++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 72b577f..58d441d 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -14,7 +14,7 @@ impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
             AST::EmptyStatement => Ok(()),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => write!(f, "{}", v.iter().join("; ")),
             AST::Function(s, ps) => {
                 match &s.kind {
                     SymbolKind::Normal | SymbolKind::Alias => {
diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index c2c2661..e97a702 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -10,7 +10,13 @@ impl AST {
     pub fn forward(&self, ctx: &mut Context) -> S {
         let out = match self {
             AST::EmptyStatement | AST::Boolean(..) | AST::Integer(..) | AST::Decimal(..) | AST::Symbol(..) | AST::String(..) => self.clone(),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => {
+                let mut last = AST::EmptyStatement;
+                for statement in v {
+                    last = statement.forward(ctx)?;
+                }
+                last
+            }
             AST::Function(s, p) => match p.len() {
                 0 => AST::Symbol(s.clone()),
                 1 => evaluate_function(s, p[0].clone(), ctx)?,
diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 571f80b..f7c9305 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -49,17 +49,20 @@ impl ParserSettings {
                 return Err(SMError::Unimplemented(format!("{:?} in `{}`", pair.as_rule(), pair.as_str())));
             }
         }
+        let mut program = vec![];
         for pair in pairs {
             match pair.as_rule() {
                 Rule::EOI => continue,
-                Rule::expression => {
-                    return Ok(self.parse_expression(pair).0);
-                }
+                Rule::expression => program.push(self.parse_expression(pair).0),
                 Rule::COMMENT | Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
-        return Ok(AST::EmptyStatement);
+        match program.len() {
+            0 => Ok(AST::EmptyStatement),
+            1 => Ok(program.remove(0)),
+            _ => Ok(AST::Program(program)),
+        }
     }
 
     fn parse_expression(&self, pairs: Pair<Rule>) -> (AST, bool) {
-- 
2.43.0


From 474d43a1d5f8630c87c4d5d9ecc66f2001fa783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/35] fix: blanks may follow ( and precede )

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 3312d0a..9305bcb 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -114,7 +114,7 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 6421cc8..79fd2a5 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -410,7 +410,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 75589b65096992e56676dc5bd34e36bb8537683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 26/35] fix: what cannot be called after a dot is kept instead
 of losing its operator

---
 projects/sm-ast/src/ast/traits.rs   | 12 +++-
 projects/sm-ast/src/parser/parse.rs | 99 +++++++++++++++++++----------
 2 files changed, 75 insertions(+), 36 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 58d441d..07d6f15 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -36,7 +36,9 @@ impl Display for AST {
                         if is_multiary(ps) {
                             let mut v = vec![];
                             for (i, arg) in ps[0].arguments.iter().enumerate() {
-                                let nested = arg.precedence() < *p || (arg.precedence() == *p && !arg.chains_with(o, i == 0));
+                                let nested = arg.precedence() < *p
+                                    || (arg.precedence() == *p && !arg.chains_with(o, i == 0))
+                                    || (o.as_ref() == "." && i > 0 && !arg.follows_dot());
                                 if nested { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
@@ -139,6 +141,14 @@ impl AST {
             _ => false,
         }
     }
+    /// whether it stays an operand of its own when it is written behind a dot
+    fn follows_dot(&self) -> bool {
+        match self {
+            AST::Function(s, _) => s.is_prefix(),
+            AST::String(..) | AST::Boolean(..) => true,
+            _ => false,
+        }
+    }
     /// whether a suffix operator can follow without brackets
     fn is_atom(&self) -> bool {
         match self {
diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index f7c9305..b99111c 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -14,6 +14,12 @@ use std::{
     str::FromStr,
 };
 
+/// an operand of an infix operator, before and after it is converted
+enum Operand<'i> {
+    Term(Pair<'i, Rule>),
+    Tree(AST),
+}
+
 /// whether the parser can convert this part of the syntax tree
 fn is_supported(pair: &Pair<Rule>) -> bool {
     match pair.as_rule() {
@@ -80,38 +86,50 @@ impl ParserSettings {
         return (base, eos);
     }
 
-    #[rustfmt::skip]
     fn parse_expr(&self, pairs: Pair<Rule>) -> AST {
         let position = self.get_position(pairs.as_span());
-        CLIMBER.climb(
+        let tree = |operand: Operand| match operand {
+            Operand::Term(pair) => self.parse_term(pair),
+            Operand::Tree(tree) => tree,
+        };
+        let operand = CLIMBER.climb(
             pairs.into_inner(),
             |pair: Pair<Rule>| match pair.as_rule() {
-                Rule::expr => self.parse_expr(pair),
-                Rule::term => self.parse_term(pair),
+                Rule::expr => Operand::Tree(self.parse_expr(pair)),
+                Rule::term => Operand::Term(pair),
                 _ => debug_cases!(pair),
             },
-            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {
-                Rule::Dot => self.parse_dot_call(lhs, rhs, &position),
-                _ => {
+            |lhs: Operand, op: Pair<Rule>, rhs: Operand| match (op.as_rule(), rhs) {
+                (Rule::Dot, Operand::Term(rhs)) => Operand::Tree(self.parse_dot_call(tree(lhs), rhs, &position)),
+                (_, rhs) => {
                     let p = Parameter {
-                        arguments: vec![lhs, rhs],
+                        arguments: vec![tree(lhs), tree(rhs)],
                         options: Default::default(),
                         position: position.clone(),
                     };
-                    AST::Function(infix_map(op.as_str()), vec![p])
+                    Operand::Tree(AST::Function(infix_map(op.as_str()), vec![p]))
                 }
             },
-        )
+        );
+        tree(operand)
     }
 
     fn parse_term(&self, pairs: Pair<Rule>) -> AST {
+        self.parse_term_with(pairs, |node| self.parse_node(node))
+    }
+
+    /// a term whose node is read by the given function
+    fn parse_term_with(&self, pairs: Pair<Rule>, parse_node: impl FnOnce(Pair<Rule>) -> AST) -> AST {
+        let mut parse_node = Some(parse_node);
         let mut base = AST::EmptyStatement;
         let mut prefix = vec![];
         let mut ps = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::node => {
-                    base = self.parse_node(pair);
+                    if let Some(parse_node) = parse_node.take() {
+                        base = parse_node(pair);
+                    }
                 }
                 Rule::Prefix => {
                     ps.push(self.get_position(pair.as_span()));
@@ -151,32 +169,43 @@ impl ParserSettings {
         }
     }
 
-    fn parse_dot_call(&self, lhs: AST, rhs: AST, position: &Position) -> AST {
-        return match rhs {
-            AST::Symbol(rs) => {
+    /// a call, a symbol or an index after a dot takes the left side as its first argument, and
+    /// what is written behind it applies to the result
+    fn parse_dot_call(&self, lhs: AST, rhs: Pair<Rule>, position: &Position) -> AST {
+        let dot = |lhs: AST, rhs: AST| {
+            let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
+            AST::Function(infix_map("."), vec![p])
+        };
+        if rhs.clone().into_inner().any(|pair| pair.as_rule() == Rule::Prefix) {
+            return dot(lhs, self.parse_term(rhs));
+        }
+        self.parse_term_with(rhs, |node| {
+            let is_name = match node.clone().into_inner().next() {
+                Some(pair) => match pair.as_rule() {
+                    Rule::apply_call => true,
+                    Rule::data => pair.into_inner().all(|data| matches!(data.as_rule(), Rule::Symbol | Rule::Integer)),
+                    _ => false,
+                },
+                None => false,
+            };
+            match self.parse_node(node) {
                 // TODO: dot call resolve
-                // let s = Symbol::from("std::infix::dot_call");
-                // let p1 = Parameter { arguments: vec![AST::string(rs.name)], options: Default::default(), position: position.clone() };
-                let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
-                AST::Function(rs, vec![p2])
-            }
-            AST::Function(rs, mut p) => {
-                let old = &mut p[0].arguments;
-                let mut new = vec![lhs];
-                new.extend_from_slice(&old);
-                *old = new;
-                AST::Function(rs, p)
-            }
-            AST::Integer(i) => {
-                let s = Symbol::from("std::core::index");
-                let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
-                AST::Function(s, vec![p])
-            }
-            _ => {
-                let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
-                AST::Function(infix_map("."), vec![p])
+                AST::Symbol(rs) if is_name => {
+                    let p = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
+                    AST::Function(rs, vec![p])
+                }
+                AST::Function(rs, mut p) if is_name => {
+                    p[0].arguments.insert(0, lhs);
+                    AST::Function(rs, p)
+                }
+                AST::Integer(i) if is_name => {
+                    let s = Symbol::from("std::core::index");
+                    let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
+                    AST::Function(s, vec![p])
+                }
+                rhs => dot(lhs, rhs),
             }
-        };
+        })
     }
 
     fn parse_apply_call(&self, pairs: Pair<Rule>) -> AST {
-- 
2.43.0


From 2973567a75398cd0e0ba144c9caac50bd4582d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 27/35] fix: null is the constant Null in std::constant

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index b99111c..9df3d47 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -447,7 +447,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From 17d909b6c6a8820c188302f1750ec09071e6bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 28/35] fix: length counts the characters of a text, as first
 and last do

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index 1e65ec5..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 28fa4254639ea47bdc70c96234987e05d1012c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 29/35] =?UTF-8?q?fix:=20=E2=88=B7=20separates=20the=20part?=
 =?UTF-8?q?s=20of=20a=20name=20like=20::?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/ast/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 07d6f15..ad0c791 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -78,7 +78,8 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
-        let mut ns = s.split("::").map(String::from).collect_vec();
+        // `∷` is another spelling of `::`
+        let mut ns = s.replace('∷', "::").split("::").map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
     }
-- 
2.43.0


From 43cea7f503a05246192da33c4ae3803b31e6de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 30/35] fix: names may begin with the letters of a keyword

---
 projects/sm-parser/simple-math.pest | 39 ++++++++------
 projects/sm-parser/src/sm_parser.rs | 82 ++++++++++++++++++++++++-----
 2 files changed, 93 insertions(+), 28 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 9305bcb..200f097 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -20,8 +20,8 @@ block_or_stmt = _{block|Set ~ statement}
 /*====================================================================================================================*/
 //FIXME: 修复 nested using
 importStatement = {
-    "using" ~ Dot* ~ use_alias
-  | "using" ~ Dot* ~ use_module_select
+    Using ~ Dot* ~ use_alias
+  | Using ~ Dot* ~ use_module_select
 }
 use_alias = !{String ~ As ~ SYMBOL|SYMBOL ~ (ModuleSplit ~ SYMBOL)* ~As~SYMBOL}
 use_module_select = !{SYMBOL ~ (ModuleSplit ~ SYMBOL)* ~(ModuleSplit ~ (module_block|Star))?}
@@ -35,13 +35,13 @@ controlFlow = _{re_control|if_statement|for_statement}
 block = !{"{" ~ statement+ ~ "}"}
 /*====================================================================================================================*/
 if_statement = {
-    "if" ~ ("(" ~ expr ~ ")"|expr) ~ (
+    If ~ ("(" ~ expr ~ ")"|expr) ~ (
         ("then" ~ block) ~ ("else" ~ block)? ~ ("otherwise" ~ block)?
     |  "{" ~ statement ~ (Comma ~ statement)? ~ (Comma ~ statement)? ~ Comma? ~ "}"
     )
 }
 /*====================================================================================================================*/
-for_statement = {"for" ~ for_in_loop}
+for_statement = {For ~ for_in_loop}
 for_in_loop = {SYMBOL~"in"~expr~block}
 //!#C678DD: For|In
 /*====================================================================================================================*/
@@ -52,33 +52,42 @@ re_control = {
 }
 
 //!#C678DD: Return|Yield|Break|Pass
-Return = @{"return"}
+// a keyword is a word of its own
+Using = @{"using" ~ !XID_CONTINUE}
+If = @{"if" ~ !XID_CONTINUE}
+For = @{"for" ~ !XID_CONTINUE}
+Class = @{"class" ~ !XID_CONTINUE}
+Trait = @{"trait" ~ !XID_CONTINUE}
+Extends = @{"extends" ~ !XID_CONTINUE}
+Let = @{"let" ~ !XID_CONTINUE}
+Def = @{"def" ~ !XID_CONTINUE}
+Return = @{"return" ~ !XID_CONTINUE}
 Yield = @{"yield"}
-Break = @{"break"}
-Pass = @{"pass"}
+Break = @{"break" ~ !XID_CONTINUE}
+Pass = @{"pass" ~ !XID_CONTINUE}
 /*====================================================================================================================*/
 ///#C678DD
 Type = @{"type"}
 /*====================================================================================================================*/
-classStatement = {"class" ~ assign_pair ~ short_block?}
-traitStatement = {"trait" ~ assign_pair ~ short_block?}
+classStatement = {Class ~ assign_pair ~ short_block?}
+traitStatement = {Trait ~ assign_pair ~ short_block?}
 
 short_block = {"{" ~ short_statement* ~ "}"}
 short_statement = {
     emptyStatement
-  | "def"? ~ define_terms ~ eos?
-  | "let"? ~ assign_terms ~ eos?
+  | Def? ~ define_terms ~ eos?
+  | Let? ~ assign_terms ~ eos?
   | short_annotation ~ eos?
 }
 short_annotation = {annotation_call+~short_statement}
 /*====================================================================================================================*/
 extendStatement = {
-    "extends" ~ Symbol ~ with_trait? ~ short_block
+    Extends ~ Symbol ~ with_trait? ~ short_block
 }
 with_trait = {"with" ~ Symbol}
 //!#C678DD: Extend|With
 /*====================================================================================================================*/
-assignStatement = {"let" ~ assign_terms}
+assignStatement = {Let ~ assign_terms}
 assign_terms = _{
     "(" ~ assign_name ~ ")" ~ type_hint? ~ block_or_stmt?
   | assign_name ~ type_hint? ~ block_or_stmt?
@@ -86,7 +95,7 @@ assign_terms = _{
 assign_name = _{assign_pair ~ (Comma ~ assign_pair)* ~ Comma?}
 assign_pair = {Symbol}
 /*====================================================================================================================*/
-defineStatement = {"def" ~ define_terms}
+defineStatement = {Def ~ define_terms}
 define_terms = _{ 
     assign_pair ~ define_parameter ~ type_hint? ~ block_or_stmt?
 }
@@ -168,7 +177,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 79fd2a5..f5175b3 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -22,6 +22,14 @@ pub enum Rule {
     for_statement,
     for_in_loop,
     re_control,
+    Using,
+    If,
+    For,
+    Class,
+    Trait,
+    Extends,
+    Let,
+    Def,
     Return,
     Yield,
     Break,
@@ -200,7 +208,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn importStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::importStatement, |state| state.sequence(|state| state.match_string("using").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::Dot(state).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::Dot(state)))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| self::use_alias(state)).or_else(|state| state.restore_on_err(|state| self::use_module_select(state))))))
+                    state.rule(Rule::importStatement, |state| state.sequence(|state| self::Using(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::Dot(state).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::Dot(state)))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| self::use_alias(state)).or_else(|state| state.restore_on_err(|state| self::use_module_select(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -245,12 +253,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn if_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::if_statement, |state| state.sequence(|state| state.match_string("if").and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::expr(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
+                    state.rule(Rule::if_statement, |state| state.sequence(|state| self::If(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::expr(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn for_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::for_statement, |state| state.sequence(|state| state.match_string("for").and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
+                    state.rule(Rule::for_statement, |state| state.sequence(|state| self::For(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -264,8 +272,48 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
+                pub fn Using(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Using, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn If(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::If, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("if").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn For(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::For, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("for").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Class(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Class, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("class").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Trait(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Trait, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("trait").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Extends(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Extends, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("extends").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Let(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Let, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("let").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Def(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Def, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("def").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
                 pub fn Return(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("return")))
+                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("return").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -275,12 +323,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Break(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("break")))
+                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("break").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Pass(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("pass")))
+                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("pass").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -290,12 +338,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn classStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::classStatement, |state| state.sequence(|state| state.match_string("class").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
+                    state.rule(Rule::classStatement, |state| state.sequence(|state| self::Class(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn traitStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::traitStatement, |state| state.sequence(|state| state.match_string("trait").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
+                    state.rule(Rule::traitStatement, |state| state.sequence(|state| self::Trait(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -305,7 +353,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn short_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::short_statement, |state| self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| state.match_string("def")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| state.match_string("let")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::short_annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))))
+                    state.rule(Rule::short_statement, |state| self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| self::Def(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| self::Let(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::short_annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -315,7 +363,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn extendStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::extendStatement, |state| state.sequence(|state| state.match_string("extends").and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
+                    state.rule(Rule::extendStatement, |state| state.sequence(|state| self::Extends(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -325,7 +373,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn assignStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::assignStatement, |state| state.sequence(|state| state.match_string("let").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state))))
+                    state.rule(Rule::assignStatement, |state| state.sequence(|state| self::Let(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -345,7 +393,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn defineStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::defineStatement, |state| state.sequence(|state| state.match_string("def").and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state))))
+                    state.rule(Rule::defineStatement, |state| state.sequence(|state| self::Def(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -545,7 +593,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -1005,6 +1053,14 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::for_statement => rules::for_statement(state),
             Rule::for_in_loop => rules::for_in_loop(state),
             Rule::re_control => rules::re_control(state),
+            Rule::Using => rules::Using(state),
+            Rule::If => rules::If(state),
+            Rule::For => rules::For(state),
+            Rule::Class => rules::Class(state),
+            Rule::Trait => rules::Trait(state),
+            Rule::Extends => rules::Extends(state),
+            Rule::Let => rules::Let(state),
+            Rule::Def => rules::Def(state),
             Rule::Return => rules::Return(state),
             Rule::Yield => rules::Yield(state),
             Rule::Break => rules::Break(state),
-- 
2.43.0


From 4ce9a1ef32ce456690a4cdcd5093d7a6f27ef45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 31/35] fix: a text with many comments is read in linear time

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 200f097..851fcd4 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -191,7 +191,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = @{ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = @{ "%%%" ~ (!"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index f5175b3..999fd88 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -623,7 +623,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::MultiLineComment, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.rule(Rule::MultiLineComment, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state))))).and_then(|state| state.match_string("%%%")))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 13e057c3e7ad937a2269f1711dfe692c793b5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 32/35] fix: nested slices and unclosed calls are read in
 linear time

---
 projects/sm-ast/src/parser/parse.rs | 7 +++++--
 projects/sm-parser/simple-math.pest | 7 +++----
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 9df3d47..0ed2539 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -303,9 +303,10 @@ impl ParserSettings {
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
+        let mut is_span = false;
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon => is_span = true,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
                     start = self.parse_expr(e)
@@ -318,10 +319,12 @@ impl ParserSettings {
                     let e = pair.into_inner().nth(0).unwrap();
                     step = self.parse_expr(e);
                 }
-                Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
             };
         }
+        if !is_span {
+            return start;
+        }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
         return AST::Function(s, vec![p]);
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 851fcd4..63b477d 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -126,7 +126,7 @@ term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
 node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
-space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
+space_call = ${(Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
 /*====================================================================================================================*/
 //!#E06C75: type_hint|generic_type|parametric_types_pair
 type_expr = _{term~ (TypeInfix ~term)*}
@@ -145,9 +145,8 @@ slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
 key_valid =!{Integer | SYMBOL | String}
 key_value =!{key_valid ~ Colon ~ expr}
 index ={
-    Start? ~ Colon ~ End? ~ Colon ~ Step?
-  | Start? ~ Colon ~ End?
-  | expr
+    Start ~ (Colon ~ End? ~ (Colon ~ Step?)?)?
+  | Colon ~ End? ~ (Colon ~ Step?)?
 }
 Start = {expr}
 End = {expr}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 999fd88..45bad35 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -473,7 +473,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn space_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| self::Number(state).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -523,7 +523,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn index(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::index, |state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))).or_else(|state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))))).or_else(|state| state.restore_on_err(|state| self::expr(state))))
+                    state.rule(Rule::index, |state| state.sequence(|state| state.restore_on_err(|state| self::Start(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.optional(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))))))))))).or_else(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.optional(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state)))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 50e3e5645937d2194ed2f42017327a4ba0e2fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 33/35] fix: the TeX form of an infix operator shows all its
 operands and its own sign

---
 projects/sm-ast/src/traits/tex/mod.rs   | 23 +++++++++++++----------
 projects/sm-ast/src/traits/tex/utils.rs | 21 +++++++--------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..df58c7f 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -1,6 +1,9 @@
 mod utils;
 
-use crate::{ast::Parameter, ToTex, AST};
+use crate::{
+    ast::{Parameter, SymbolKind},
+    ToTex, AST,
+};
 use itertools::Itertools;
 use utils::{infix_tex, omit_brackets_function};
 
@@ -20,10 +23,10 @@ impl ToTex for AST {
             AST::Symbol(s) => format!("{}", s.name),
             AST::String(s) => format!(r"\\text{{{}}}", s),
             AST::Function(s, p) => {
-                match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                    ["std", "prefix"] => unimplemented!(),
-                    ["std", "infix"] => return infix_tex(&s, &p[0]),
-                    ["std", "suffix"] => unimplemented!(),
+                match &s.kind {
+                    SymbolKind::Infix(o, _) if p[0].is_multiary() => return infix_tex(o, &p[0]),
+                    SymbolKind::Prefix(..) => unimplemented!(),
+                    SymbolKind::Suffix(..) => unimplemented!(),
                     _ => (),
                 }
                 match s.name.as_ref() {
@@ -34,7 +37,7 @@ impl ToTex for AST {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
                     "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(0);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
@@ -70,10 +73,10 @@ impl BoxArea for AST {
         match self {
             AST::EmptyStatement => 0,
             AST::Program(_) => 1,
-            AST::Function(s, p) => match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                ["std", "prefix"] => unimplemented!(),
-                ["std", "infix"] => p[0].arguments.len(),
-                ["std", "suffix"] => unimplemented!(),
+            AST::Function(s, p) => match &s.kind {
+                SymbolKind::Infix(..) if p[0].is_multiary() => p[0].arguments.len(),
+                SymbolKind::Prefix(..) => unimplemented!(),
+                SymbolKind::Suffix(..) => unimplemented!(),
                 _ => 1,
             },
             _ => 1,
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..c8501a1 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -1,19 +1,12 @@
-use crate::{
-    ast::{Parameter, Symbol},
-    traits::tex::BoxArea,
-    ToTex,
-};
+use crate::{ast::Parameter, traits::tex::BoxArea, ToTex};
 use itertools::Itertools;
 
-pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
-    let lhs = &p.arguments[0];
-    let rhs = &p.arguments[1];
-    let ops = match s.name.as_str() {
-        "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
-        _ => &s.name,
-    };
-    format!("{} {} {}", lhs, ops, rhs)
+pub(crate) fn infix_tex(operator: &str, p: &Parameter) -> String {
+    match operator {
+        "*" => p.arguments.iter().join(" "),
+        "^" => p.arguments.iter().map(|e| format!("{{{}}}", e)).join("^"),
+        _ => p.arguments.iter().join(&format!(" {} ", operator)),
+    }
 }
 
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
-- 
2.43.0


From e9e48f45b04ffb01cca490c0548c3aa00733e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 34/35] fix: prefixes, suffixes and programs have a TeX form

---
 projects/sm-ast/src/traits/tex/mod.rs   | 11 +++++------
 projects/sm-ast/src/traits/tex/utils.rs |  7 ++++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index df58c7f..2b5e951 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -5,7 +5,7 @@ use crate::{
     ToTex, AST,
 };
 use itertools::Itertools;
-use utils::{infix_tex, omit_brackets_function};
+use utils::{infix_tex, omit_brackets_function, operand_tex};
 
 #[rustfmt::skip]
 pub trait BoxArea {
@@ -17,7 +17,7 @@ impl ToTex for AST {
     fn to_tex(&self) -> String {
         match (*self).clone() {
             AST::EmptyStatement => format!(""),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => v.iter().map(AST::to_tex).collect_vec().join("; "),
             AST::Integer(i) => format!("{}", i),
             AST::Decimal(f) => format!("{}", f),
             AST::Symbol(s) => format!("{}", s.name),
@@ -25,8 +25,8 @@ impl ToTex for AST {
             AST::Function(s, p) => {
                 match &s.kind {
                     SymbolKind::Infix(o, _) if p[0].is_multiary() => return infix_tex(o, &p[0]),
-                    SymbolKind::Prefix(..) => unimplemented!(),
-                    SymbolKind::Suffix(..) => unimplemented!(),
+                    SymbolKind::Prefix(o) if p[0].is_unary() => return format!("{}{}", o, operand_tex(&p[0].arguments[0])),
+                    SymbolKind::Suffix(o) if p[0].is_unary() => return format!("{}{}", operand_tex(&p[0].arguments[0]), o),
                     _ => (),
                 }
                 match s.name.as_ref() {
@@ -75,8 +75,7 @@ impl BoxArea for AST {
             AST::Program(_) => 1,
             AST::Function(s, p) => match &s.kind {
                 SymbolKind::Infix(..) if p[0].is_multiary() => p[0].arguments.len(),
-                SymbolKind::Prefix(..) => unimplemented!(),
-                SymbolKind::Suffix(..) => unimplemented!(),
+                SymbolKind::Prefix(..) | SymbolKind::Suffix(..) => 2,
                 _ => 1,
             },
             _ => 1,
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index c8501a1..27b6a25 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -1,4 +1,4 @@
-use crate::{ast::Parameter, traits::tex::BoxArea, ToTex};
+use crate::{ast::Parameter, traits::tex::BoxArea, ToTex, AST};
 use itertools::Itertools;
 
 pub(crate) fn infix_tex(operator: &str, p: &Parameter) -> String {
@@ -9,6 +9,11 @@ pub(crate) fn infix_tex(operator: &str, p: &Parameter) -> String {
     }
 }
 
+/// the operand of a prefix or suffix operator, in brackets when it is itself an operation
+pub(crate) fn operand_tex(e: &AST) -> String {
+    if e.width() <= 1 { e.to_tex() } else { format!("({})", e.to_tex()) }
+}
+
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
     let mut out = String::new();
     let args = &p.arguments;
-- 
2.43.0


From 713febdda5016a77f1ed2e2360fdf1d37f0f41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 35/35] fix: the TeX form of a call keeps its options and all
 its groups

---
 projects/sm-ast/src/traits/tex/mod.rs   | 14 ++++++--------
 projects/sm-ast/src/traits/tex/utils.rs | 18 ++++++++++++++----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 2b5e951..82380de 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -5,7 +5,7 @@ use crate::{
     ToTex, AST,
 };
 use itertools::Itertools;
-use utils::{infix_tex, omit_brackets_function, operand_tex};
+use utils::{groups_tex, infix_tex, omit_brackets_function, operand_tex, terms_tex};
 
 #[rustfmt::skip]
 pub trait BoxArea {
@@ -31,19 +31,18 @@ impl ToTex for AST {
                 }
                 match s.name.as_ref() {
                     "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" => {
-                        format!(r"\\{}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\{}{}{}", s.name, omit_brackets_function(&p[0]), groups_tex(&p[1..]))
                     }
                     "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
-                        format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\operatorname{{{}}}{}{}", s.name, omit_brackets_function(&p[0]), groups_tex(&p[1..]))
                     }
-                    "List" => {
+                    "List" if p.len() == 1 && p[0].options.is_empty() => {
                         let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(0);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
                     _ => {
-                        let inner = p.iter().map(|e| e.to_tex()).collect_vec().join("");
-                        format!(r"\\operatorname{{{}}}{}", s.name, inner)
+                        format!(r"\\operatorname{{{}}}{}", s.name, groups_tex(&p))
                     }
                 }
             }
@@ -55,8 +54,7 @@ impl ToTex for AST {
 
 impl ToTex for Parameter {
     fn to_tex(&self) -> String {
-        let terms = self.arguments.iter().map(|e| e.to_tex()).collect_vec().join(", ");
-        format!(r"\\left({}\\right)", terms)
+        format!(r"\\left({}\\right)", terms_tex(self))
     }
 }
 
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 27b6a25..5848217 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -14,12 +14,18 @@ pub(crate) fn operand_tex(e: &AST) -> String {
     if e.width() <= 1 { e.to_tex() } else { format!("({})", e.to_tex()) }
 }
 
+/// the arguments, then the options
+pub(crate) fn terms_tex(p: &Parameter) -> String {
+    let options = p.options.iter().map(|(k, v)| format!("{}: {}", k.to_tex(), v.to_tex()));
+    p.arguments.iter().map(|e| e.to_tex()).chain(options).join(", ")
+}
+
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
     let mut out = String::new();
     let args = &p.arguments;
-    match args.len() {
+    match args.len() + p.options.len() {
         0 => out.push_str("()"),
-        1 => {
+        1 if args.len() == 1 => {
             if args[0].width() <= 1 {
                 out.push_str(&format!(" {}", args[0].to_tex()))
             }
@@ -48,8 +54,7 @@ pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
             else {
                 out.push_str("(");
             }
-            let t = args.iter().map(|e| e.to_tex()).collect_vec();
-            out.push_str(&format!("{}", t.join(", ")));
+            out.push_str(&terms_tex(p));
             if max > 1 {
                 out.push_str("\\right)");
             }
@@ -60,3 +65,8 @@ pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
     }
     return out;
 }
+
+/// groups of arguments, one behind the other
+pub(crate) fn groups_tex(groups: &[Parameter]) -> String {
+    groups.iter().map(|p| p.to_tex()).join("")
+}
-- 
2.43.0

