From da4ea6585282b0d617dc11b5fecf161b2acba5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 1/4] fix: loading a fraction brings it to lowest terms with a
 positive denominator

---
 src/rational.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index afb1547..c7553cd 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -263,6 +263,26 @@ impl From<Int> for Rational {
 }
 */
 
+/// numerator and denominator, reduced to lowest terms with a positive denominator
+fn deserialize_ratio<'de, D>(deserializer: D) -> Result<num_rational::Ratio<Int>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    use serde::de::Error;
+
+    let (mut n, mut d) = <(Int, Int)>::deserialize(deserializer)?;
+    if d == 0 {
+        return Err(D::Error::custom("denominator is zero"));
+    }
+    if d < 0 {
+        (n, d) = match (n.checked_neg(), d.checked_neg()) {
+            (Some(n), Some(d)) => (n, d),
+            _ => return Err(D::Error::custom("number out of range")),
+        };
+    }
+    Ok(num_rational::Ratio::new(n, d))
+}
+
 #[derive(
     Default,
     Copy,
@@ -279,7 +299,9 @@ impl From<Int> for Rational {
 )]
 #[arith_ops(ref, self.0)]
 #[debug("{}", self.0)]
-pub struct Rational(pub(crate) num_rational::Ratio<Int>);
+pub struct Rational(
+    #[serde(deserialize_with = "deserialize_ratio")] pub(crate) num_rational::Ratio<Int>,
+);
 //pub struct Rational(pub(crate) mal::Rational);
 
 impl Rational {
-- 
2.43.0


From 6914f81ad12ab74e8b05109d7480d7dd5a370d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 2/4] fix: comparing undef with undef, a variable or a function
 ends

---
 src/atom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..b8b8174 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -218,6 +218,8 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Undef, A::Var(_) | A::Func(_)) => cmp::Ordering::Less,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
                 cmp_slice_rev(lhs.args(), rhs.args())
-- 
2.43.0


From 0884cdac4c35eaf1f67ba1b3ac0ec37350a00699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 3/4] fix: operations work in destructors that run after a
 thread's constants are dropped

---
 src/atom.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index b8b8174..5bcd4ad 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -783,29 +783,35 @@ impl Expr {
         }
     }
 
+    /// the shared constant of this thread, or a new one if the thread is
+    /// ending and has already dropped its own
+    fn constant(key: &'static std::thread::LocalKey<Expr>, a: Atom) -> Expr {
+        key.try_with(Expr::clone).unwrap_or_else(|_| Expr::from(a))
+    }
+
     pub fn undef() -> Expr {
-        Self::_UNDEF.with(|e| e.clone())
+        Self::constant(&Self::_UNDEF, Atom::UNDEF)
     }
     pub fn min_two() -> Expr {
-        Self::_MINUS_TWO.with(|e| e.clone())
+        Self::constant(&Self::_MINUS_TWO, Atom::MINUS_TWO)
     }
     pub fn min_one() -> Expr {
-        Self::_MINUS_ONE.with(|e| e.clone())
+        Self::constant(&Self::_MINUS_ONE, Atom::MINUS_ONE)
     }
     pub fn zero() -> Expr {
-        Self::_ZERO.with(|e| e.clone())
+        Self::constant(&Self::_ZERO, Atom::ZERO)
     }
     pub fn one() -> Expr {
-        Self::_ONE.with(|e| e.clone())
+        Self::constant(&Self::_ONE, Atom::ONE)
     }
     pub fn two() -> Expr {
-        Self::_TWO.with(|e| e.clone())
+        Self::constant(&Self::_TWO, Atom::TWO)
     }
     pub fn pi() -> Expr {
-        Self::_PI.with(|e| e.clone())
+        Self::constant(&Self::_PI, Atom::PI)
     }
     pub fn e() -> Expr {
-        Self::_E.with(|e| e.clone())
+        Self::constant(&Self::_E, Atom::E)
     }
 
     /*
-- 
2.43.0


From 0f64e82a3688cb1bd8846219234c3dcf483ce249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 4/4] fix: compare the arguments of sums and products without
 sorting them

The order of expressions is not antisymmetric (b^2 < 3*b and 3*b < b^2), so
sorting them may panic for more than 20 arguments, and left equal sums unequal:
b^2 + 3*b and 3*b + b^2, say.
---
 src/atom.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 5bcd4ad..47ac95e 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -203,6 +203,25 @@ fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     lhs.len().cmp(&rhs.len())
 }
 
+/// Whether both have the same elements, in any order.
+///
+/// This does not sort them: the order of expressions is not transitive, and [slice::sort] may
+/// panic in that case.
+fn eq_unordered(lhs: &[Expr], rhs: &[Expr]) -> bool {
+    if lhs.len() != rhs.len() {
+        return false;
+    }
+
+    let mut rest: Vec<&Expr> = rhs.iter().collect();
+    lhs.iter().all(|l| match rest.iter().position(|r| *r == l) {
+        Some(i) => {
+            rest.remove(i);
+            true
+        }
+        None => false,
+    })
+}
+
 impl Ord for Atom {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use Atom as A;
@@ -511,15 +530,7 @@ impl fmt::Debug for Sum {
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
-
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        eq_unordered(&self.args, &other.args)
     }
 }
 
@@ -590,15 +601,7 @@ impl fmt::Debug for Prod {
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
-
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        eq_unordered(&self.args, &other.args)
     }
 }
 
-- 
2.43.0

