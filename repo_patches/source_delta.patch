From 5b73b14a7691fec918d03bb07bd42c1adde84c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 01/22] verif hooks: guarded entry point for the conformance
 harness (cfg verif_hooks)

---
 src/compute/limit/mod.rs | 24 ++++++++++++++++++++++++
 src/main.rs              | 13 +++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..d42fa98 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -81,3 +81,27 @@ impl LimitTry<Expression, Expression> for Expression {
         self.limit(&of, to, order_try)
     }
 }
+
+/// Verification hook: the limit entry points, which are private to this module.
+#[cfg(verif_hooks)]
+pub(crate) mod verif_access {
+    use super::*;
+
+    pub(crate) fn limit(
+        expr: Expression,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+
+    pub(crate) fn limit_expr(
+        expr: Expression,
+        of: Expression,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+}
diff --git a/src/main.rs b/src/main.rs
index a6bc6ae..3b128ba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use crate::compute::taylor_expansion::partial_expansion::*;
 use crate::math_op::ln::ln;
 use crate::{ast::tree::Expression, math_op::exp::exp};
@@ -7,7 +9,18 @@ mod compute;
 mod math_op;
 mod smart_num;
 
+// Verification hook, compiled only with `--cfg verif_hooks`: includes the
+// conformance harness named by VERIF_HARNESS at build time.
+#[cfg(verif_hooks)]
+mod verif_hooks {
+    include!(env!("VERIF_HARNESS"));
+}
+
 fn main() {
+    #[cfg(verif_hooks)]
+    if verif_hooks::main() {
+        return;
+    }
     println!("Hello, world!");
     {
         let zero = Expression::zero();
-- 
2.43.0


From 276d9c627ab6b935f5ccb8251238391f251ad05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 02/22] fix: cos(pi) folds to -1, not 1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From 81f3e06e8fac12fea2b725e1f1ace990961e49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 03/22] fix: folding powers keeps their value (0^r, 1^r,
 ln(u)^r were folded like exp)

---
 src/compute/num_aggregate/rules/pow.rs | 32 +++++++++-----------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..2188c19 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,18 @@
-use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
-use crate::ast::tree::{AstNode, Expression};
+use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
+use crate::smart_num::ToSmartNum;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
-        AstNode::Operand(operand) => match operand {
-            AstOperand::Variable(_) => sub.pow(r),
-            AstOperand::Num(v) => {
-                if v.is_zero() {
-                    Expression::from(1_i64)
-                } else if v.is_one() {
-                    r
-                } else {
-                    sub.pow(r)
-                }
-            }
-        },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+    let sub = child.pop().unwrap().num_aggregate();
+    if r.is_zero() || sub.is_one() {
+        Expression::one()
+    } else if r.is_one() {
+        sub
+    } else if sub.is_zero() && (&r).to_smart_num().map_or(false, |v| v.sign() > 0) {
+        Expression::zero()
+    } else {
+        sub.pow(r)
     }
 }
-- 
2.43.0


From 1f968a3bb18d5ee3bdd8de629d8f9c0298986580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 04/22] fix: a zero sum or difference of rationals keeps a
 valid sign

---
 src/smart_num/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..3a4fc24 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -97,7 +97,7 @@ impl Add for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a + b;
-        let sign = s.signum();
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
@@ -116,7 +116,7 @@ impl Sub for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a - b;
-        let sign = s.signum();
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
-- 
2.43.0


From c90dd82dc4e6443ac4130a21f3d427f63777496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 05/22] fix: rational sums refuse cross products beyond i64
 instead of wrapping

---
 src/smart_num/rational.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 3a4fc24..6e0c1e2 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -94,8 +94,8 @@ impl Add for RationalNum {
     type Output = RationalNum;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = i64::try_from(self.nominator * rhs.denominator).unwrap() * self.sign;
+        let b = i64::try_from(self.denominator * rhs.nominator).unwrap() * rhs.sign;
         let s = a + b;
         let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
@@ -113,8 +113,8 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = i64::try_from(self.nominator * rhs.denominator).unwrap() * self.sign;
+        let b = i64::try_from(self.denominator * rhs.nominator).unwrap() * rhs.sign;
         let s = a - b;
         let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
-- 
2.43.0


From 06f1cee7329cb65fc79819baaa3b71ae01209838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 06/22] fix: converting u64 values above i64::MAX keeps the
 value

---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..372d3fb 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -194,7 +194,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        match i64::try_from(v) {
+            Ok(i) => SmartNumVal::Integer(i),
+            Err(_) => SmartNumVal::Rational(RationalNum::from(v)),
+        }
     }
 }
 
-- 
2.43.0


From f547935b5b46742445dfecde172e649c7a1ac5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 07/22] fix: the rational view of i64::MIN does not overflow

---
 src/smart_num/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 6e0c1e2..818846a 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -174,7 +174,7 @@ impl From<i64> for RationalNum {
     fn from(v: i64) -> Self {
         RationalNum {
             sign: if v == 0 { 1_i64 } else { v.signum() },
-            nominator: v.abs() as u64,
+            nominator: v.unsigned_abs(),
             denominator: 1,
         }
     }
-- 
2.43.0


From df08783fb49995da571f1498b26e2628c8a28c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 08/22] fix: folding leaves a division by zero unevaluated

---
 src/compute/num_aggregate/rules/div.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/div.rs b/src/compute/num_aggregate/rules/div.rs
index 2185db4..4f6a80c 100644
--- a/src/compute/num_aggregate/rules/div.rs
+++ b/src/compute/num_aggregate/rules/div.rs
@@ -5,7 +5,9 @@ use crate::smart_num::ToSmartNum;
 pub(crate) fn div_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
     let l = child.pop().unwrap().num_aggregate();
-    if l.is_num() && r.is_num() {
+    if r.is_zero() {
+        l / r
+    } else if l.is_num() && r.is_num() {
         Expression::from(l.to_smart_num().unwrap() / r.to_smart_num().unwrap())
     } else if l.is_zero() {
         Expression::from(0_i64)
-- 
2.43.0


From 4a5de84a9c2896686fbba6b377dc75d95859a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 09/22] fix: folding 0 - (-x) leaves no double negation

---
 src/compute/num_aggregate/rules/sub.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/sub.rs b/src/compute/num_aggregate/rules/sub.rs
index 2d8e783..3676f04 100644
--- a/src/compute/num_aggregate/rules/sub.rs
+++ b/src/compute/num_aggregate/rules/sub.rs
@@ -8,7 +8,7 @@ pub(crate) fn sub_eval_rule(mut child: Vec<Expression>) -> Expression {
     if l.is_num() && r.is_num() {
         Expression::from(l.to_smart_num().unwrap() - r.to_smart_num().unwrap())
     } else if l.is_zero() {
-        -r
+        (-r).num_aggregate()
     } else if r.is_zero() {
         l
     } else {
-- 
2.43.0


From 786954a8458f0dd58e756f9fcd2458576271f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 10/22] fix: print parentheses around right operands of -, /
 and ^ where needed

---
 src/ast/tree.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..2d107e9 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -2,7 +2,7 @@
 
 use super::op::{
     operand::{AstOperand, Variable},
-    operator::AstOperator,
+    operator::{AstOperator, OperatorType},
 };
 use crate::smart_num::{
     rational::{RationalNum, ToRational},
@@ -82,11 +82,19 @@ impl Expression {
             AstNode::Operator(op) => {
                 let me = if self.child.len() == 2 {
                     // binary operator
+                    // -, / and ^ associate to the left: a right operand of the
+                    // same priority needs its parentheses
+                    let right_priority = match op.descriptor {
+                        OperatorType::Sub | OperatorType::Div | OperatorType::Pow => {
+                            op.priority + 1
+                        }
+                        _ => op.priority,
+                    };
                     format!(
                         "{} {} {}",
                         self.child[0].to_string_raw(op.priority),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(right_priority),
                     )
                 } else {
                     // unary operator
-- 
2.43.0


From 27706d5297e9656da75ef025805e8e3a4162b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 11/22] fix: print parentheses around negative numbers inside
 operators

---
 src/ast/tree.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index 2d107e9..316bf10 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -78,7 +78,15 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => {
+                let me = v.to_string();
+                // a negative number binds like a negation
+                if me.starts_with('-') && v.is_num() && upper_priority > 1 {
+                    format!("({})", me)
+                } else {
+                    me
+                }
+            }
             AstNode::Operator(op) => {
                 let me = if self.child.len() == 2 {
                     // binary operator
-- 
2.43.0


From cf3f406af3e18a46afe4a5c27f7d983719788de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 12/22] fix: printed expansions keep a coefficient that is a
 sum in parentheses

---
 src/compute/taylor_expansion/partial_expansion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compute/taylor_expansion/partial_expansion.rs b/src/compute/taylor_expansion/partial_expansion.rs
index 3bddce5..69c159a 100644
--- a/src/compute/taylor_expansion/partial_expansion.rs
+++ b/src/compute/taylor_expansion/partial_expansion.rs
@@ -26,9 +26,8 @@ impl Display for PartialExpansion {
             if term.is_zero() {
                 continue;
             }
-            content.push_str(format!("{} * ", term).as_str());
-            content.push_str(format!("{}", b.clone().pow(idx as i64)).as_str());
-            content.push_str(" + ")
+            let product = term.clone() * b.clone().pow(idx as i64);
+            content.push_str(format!("{} + ", product).as_str());
         }
         content.push_str(format!("O({})", b.clone().pow(self.order + 1),).as_str());
         write!(f, "{}", content)
-- 
2.43.0


From f7b4b7665d74dd6e14c96ff52607bfbe87cdadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 13/22] fix: the derivative of a power with constant exponent
 exists at bases <= 0

---
 src/compute/derivative/rules/pow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..e864d09 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -13,6 +13,10 @@ pub(crate) fn pow_derivative_rule(
     let u = child.pop().unwrap();
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
+    if r_d.is_zero() {
+        // constant exponent: (u^r)' = r * u^(r-1) * u', also where ln(u) is undefined
+        return Ok(r.clone() * u.pow(r - Expression::one()) * u_d);
+    }
     let ln_u = u.clone().ln();
     let u_pow_r = u.clone().pow(r.clone());
     return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));
-- 
2.43.0


From 1e6b21e1ea11d85dadd8ff41e852bc22629d6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 14/22] fix: the limit of a negation is computed instead of
 recursing into itself

---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index d42fa98..2234646 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..597292b 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        sub.limit(of, to, order_try).map(|z| -z)
     }
 }
-- 
2.43.0


From 6915e9d70ede83e0d7cdf46a6df7e1256151a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 15/22] fix: a limit value that is zero is an infinitesimal

---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 2234646..3b4b1c5 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let expr = expr.num_aggregate();
+                    if expr.is_zero() {
+                        Ok(LimitExpression::Infinitesimal)
+                    } else {
+                        Ok(LimitExpression::Normal(expr))
+                    }
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From a14f3b20bc3350039f678c7a3a6a667d3de65dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 16/22] fix: limits of sin and cos follow the limit of their
 argument

---
 src/compute/limit/mod.rs       |  6 +++---
 src/compute/limit/rules/cos.rs | 32 ++++++++++++++++--------------
 src/compute/limit/rules/sin.rs | 36 ++++++++++++++++------------------
 3 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 3b4b1c5..f82d4b6 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -52,9 +52,9 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 OperatorType::Div => self.div_limit_expr_rule(of, to, order_try),
                 OperatorType::Sin => self.sin_limit_expr_rule(of, to, order_try),
                 OperatorType::Cos => self.cos_limit_expr_rule(of, to, order_try),
-                OperatorType::Exp => todo!(),
-                OperatorType::Ln => todo!(),
-                OperatorType::Pow => todo!(),
+                OperatorType::Exp => Err(NoValidLimitFound {}), // TODO
+                OperatorType::Ln => Err(NoValidLimitFound {}), // TODO
+                OperatorType::Pow => Err(NoValidLimitFound {}), // TODO
             },
         }?;
         let flag = match &z {
diff --git a/src/compute/limit/rules/cos.rs b/src/compute/limit/rules/cos.rs
index 0f920b5..18208ac 100644
--- a/src/compute/limit/rules/cos.rs
+++ b/src/compute/limit/rules/cos.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::cos::cos,
 };
 
 pub(crate) trait CosLimitExprRule {
@@ -17,16 +17,18 @@ pub(crate) trait CosLimitExprRule {
 impl CosLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn cos_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        self.substitute(of, &to)
-            .map_err(|_| NoValidLimitFound {})
-            .map(|expr| {
-                let z = expr.num_aggregate();
-                if z.is_zero() {
-                    LimitExpression::Infinitesimal
-                } else {
-                    LimitExpression::Normal(z)
-                }
-            })
+    fn cos_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        Ok(match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => LimitExpression::Normal(Expression::one()),
+            LimitExpression::Infinity => LimitExpression::BoundedFluctuation,
+            LimitExpression::BoundedFluctuation => LimitExpression::BoundedFluctuation,
+            LimitExpression::Normal(v) => LimitExpression::Normal(cos(v)),
+        })
     }
 }
diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..2c0debb 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::sin::sin,
 };
 
 pub(crate) trait SinLimitExprRule {
@@ -17,20 +17,18 @@ pub(crate) trait SinLimitExprRule {
 impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
-        }
+    fn sin_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        Ok(match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => LimitExpression::Infinitesimal,
+            LimitExpression::Infinity => LimitExpression::BoundedFluctuation,
+            LimitExpression::BoundedFluctuation => LimitExpression::BoundedFluctuation,
+            LimitExpression::Normal(v) => LimitExpression::Normal(sin(v)),
+        })
     }
 }
-- 
2.43.0


From 329a4f072cf9f2dc40589b596c1ff9bd52c1166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 17/22] fix: L'Hopital's rule is applied to 0/0 and
 infinity/infinity only

---
 src/compute/limit/rules/div.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..87f14e9 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -29,9 +29,15 @@ impl DivLimitExprRule for Expression {
         for _ in 0..=order_try {
             let a = l.clone().limit(of, to.clone(), order_try)?;
             let b = r.clone().limit(of, to.clone(), order_try)?;
+            // L'Hopital's rule holds for 0/0 and infinity/infinity only
+            let indeterminate = matches!(
+                (&a, &b),
+                (LimitExpression::Infinitesimal, LimitExpression::Infinitesimal)
+                    | (LimitExpression::Infinity, LimitExpression::Infinity)
+            );
             let z = a / b;
-            if z.is_ok() {
-                return Ok(z.unwrap());
+            if z.is_ok() || !indeterminate {
+                return z;
             }
             l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;
             r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
-- 
2.43.0


From 02c0be5416456d3a8da0e6015343540c60fdc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 18/22] fix: nested indeterminate limits share the
 differentiation budget, so that limits terminate

---
 src/compute/limit/rules/div.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 87f14e9..36d56ed 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -26,9 +26,11 @@ impl DivLimitExprRule for Expression {
         let mut r = self.child.pop().unwrap();
         let mut l = self.child.pop().unwrap();
         // l/r
-        for _ in 0..=order_try {
-            let a = l.clone().limit(of, to.clone(), order_try)?;
-            let b = r.clone().limit(of, to.clone(), order_try)?;
+        // what is differentiated here is not available to the limits inside, or
+        // nested indeterminate forms would be differentiated forever
+        for order_left in (0..=order_try).rev() {
+            let a = l.clone().limit(of, to.clone(), order_left)?;
+            let b = r.clone().limit(of, to.clone(), order_left)?;
             // L'Hopital's rule holds for 0/0 and infinity/infinity only
             let indeterminate = matches!(
                 (&a, &b),
-- 
2.43.0


From 647ea14fd9ecae8b47129f400ef8514f2d9920b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 19/22] fix: zero plus infinity is infinity, like infinity plus
 zero

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From 4cbd7f9c8f17bfab4b4a8e8efe6968941bab35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 20/22] fix: the sign check of a rational does not overflow for
 i64::MIN

---
 src/smart_num/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 818846a..d682234 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -55,7 +55,7 @@ impl RationalNum {
     }
 
     pub fn new(sign: i64, nominator: u64, denominator: u64) -> Option<RationalNum> {
-        if sign.abs() == 1 && denominator != 0 {
+        if (sign == 1 || sign == -1) && denominator != 0 {
             Some(RationalNum {
                 sign,
                 nominator,
-- 
2.43.0


From 9dfa8d2e52ac33549c065397ab4fd07b21152cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 21/22] fix: limit of a quotient differentiated once more than
 requested before refusing

---
 src/compute/limit/rules/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 36d56ed..93f4294 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -38,7 +38,7 @@ impl DivLimitExprRule for Expression {
                     | (LimitExpression::Infinity, LimitExpression::Infinity)
             );
             let z = a / b;
-            if z.is_ok() || !indeterminate {
+            if z.is_ok() || !indeterminate || order_left == 0 {
                 return z;
             }
             l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;
-- 
2.43.0


From f547a3c7e946184c2948d7cdf6a9bb6a0c3ad9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 22/22] fix: a limit with respect to something that is not a
 variable is refused instead of panicking

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f82d4b6..320fde0 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -84,7 +84,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0

