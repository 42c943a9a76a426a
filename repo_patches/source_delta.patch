From 91df2be8118bdaeb65947718b70128e3e21ce924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 01/57] fix: pow(pow(x, y), c) with a non-constant inner
 exponent aborted

---
 .../dreal/symbolic/symbolic_expression.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..ba68ff0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,11 +729,13 @@ Expression pow(const Expression& e1, const Expression& e2) {
     //
     // only if both of exponent and e2 are integers.
     const Expression& exponent{get_second_argument(e1)};
-    const double v1{get_constant_value(exponent)};
-    const double v2{get_constant_value(e2)};
-    if (is_integer(v1) && is_integer(v2)) {
-      const Expression& base{get_first_argument(e1)};
-      return Expression{new ExpressionPow(base, v1 * v2)};
+    if (is_constant(exponent)) {
+      const double v1{get_constant_value(exponent)};
+      const double v2{get_constant_value(e2)};
+      if (is_integer(v1) && is_integer(v2)) {
+        const Expression& base{get_first_argument(e1)};
+        return Expression{new ExpressionPow(base, v1 * v2)};
+      }
     }
   }
   return Expression{new ExpressionPow(e1, e2)};
-- 
2.43.0


From d219a302286f95747f8a7037adc76578479ec193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 02/57] fix: a product dropped the absolute value in pow(pow(x,
 2), 0.5) * y

---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From 4d29b4b061bff8f9e591deeb0238f38bc08617c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 03/57] fix: evaluating a product with a power outside its
 domain returned NaN

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 ++++-
 .../dreal/symbolic/symbolic_expression_cell.h                | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..a654c95 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -845,7 +845,10 @@ double ExpressionMul::Evaluate(const Environment& env) const {
   return accumulate(
       base_to_exponent_map_.begin(), base_to_exponent_map_.end(), constant_,
       [&env](const double init, const pair<const Expression, Expression>& p) {
-        return init * std::pow(p.first.Evaluate(env), p.second.Evaluate(env));
+        const double base{p.first.Evaluate(env)};
+        const double exponent{p.second.Evaluate(env)};
+        ExpressionPow::check_domain(base, exponent);
+        return init * std::pow(base, exponent);
       });
 }
 
diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
index 72b6c64..4c9ca28 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
@@ -622,6 +622,7 @@ class ExpressionPow : public BinaryExpressionCell {
   Expression Differentiate(const Variable& x) const override;
   std::ostream& Display(std::ostream& os) const override;
 
+  friend class ExpressionMul;
   friend Expression pow(const Expression& e1, const Expression& e2);
 
  private:
-- 
2.43.0


From d8443a60ff26cf1b3c53473c6e105057e4255061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 04/57] fix: different interval constants could be equivalent
 under the ordering

---
 .../dreal/symbolic/symbolic_expression_cell.cc         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index a654c95..da6a133 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -447,8 +447,14 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  if (lb_ != r.lb_) {
+    return lb_ < r.lb_;
+  }
+  if (ub_ != r.ub_) {
+    return ub_ < r.ub_;
+  }
+  return use_lb_as_representative_ < r.use_lb_as_representative_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From 90078d2c2254cb4c990823985d54595254eaf69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 05/57] fix: substitution dropped unmentioned arguments of
 uninterpreted functions

---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index da6a133..bde137f 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2148,12 +2148,16 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+        continue;
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+        continue;
       }
     }
+    // `var` is not substituted.
+    new_vars.insert(var);
   }
   return uninterpreted_function(name_, new_vars);
 }
-- 
2.43.0


From 1a03872f63ca9139618b65da30fa3d498dbf6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 06/57] fix: erasing a variable set from itself used an erased
 node

---
 .../dreal/symbolic/symbolic_variables.cc                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..02ce9c1 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -40,8 +40,9 @@ string Variables::to_string() const {
 
 Variables::size_type Variables::erase(const Variables& vars) {
   size_type num_of_erased_elements{0};
-  for (const Variable& var : vars) {
-    num_of_erased_elements += erase(var);
+  // Note that `vars` and `*this` can be the same object.
+  for (const_iterator it{vars.begin()}; it != vars.end();) {
+    num_of_erased_elements += erase(*(it++));
   }
   return num_of_erased_elements;
 }
-- 
2.43.0


From 618366181b040db10f5e101a9ddbb7ee7ae97fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 07/57] fix: e += e and e *= e lost terms when e held the only
 reference

---
 .../dreal/symbolic/symbolic_expression.cc                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index ba68ff0..6ac5e50 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not take the terms out of `lhs` if `rhs` is the same object.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,8 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not take the terms out of `lhs` if `rhs` is the same object.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From aa78feb79100ec14593ed048fec222c61e2b164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 08/57] fix: pow(x, y) * pow(pow(x, y), z) depended on the
 order of the factors

---
 .../dreal/symbolic/symbolic_expression.cc                      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 6ac5e50..d4336f8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -556,8 +556,7 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
         lhs = pow(e1, e2 + e4);
         return lhs;
       }
-    }
-    if (e1.EqualTo(rhs)) {
+    } else if (e1.EqualTo(rhs)) {
       // Simplification: pow(e1, e2) * e1 => pow(e1, e2 + 1)
       const Expression& e2{get_second_argument(lhs)};
       lhs = pow(e1, e2 + 1);
-- 
2.43.0


From 58992618abdc88adadad7ac4ca00cf7ca4c2602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 09/57] fix: expansion left an integer power of a product
 unexpanded

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index bde137f..45a6504 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -220,9 +220,10 @@ Expression ExpandPow(const Expression& base, const Expression& exponent) {
   assert(base.EqualTo(base.Expand()));
   assert(exponent.EqualTo(exponent.Expand()));
   // Expand if
-  //     1) base is an addition expression and
+  //     1) base is an addition or a multiplication expression and
   //     2) exponent is a positive integer.
-  if (!is_addition(base) || !is_constant(exponent)) {
+  if (!(is_addition(base) || is_multiplication(base)) ||
+      !is_constant(exponent)) {
     return pow(base, exponent);
   }
   const double e{get_constant_value(exponent)};
-- 
2.43.0


From 19a8ae10a7bb82348ea31c7144ca0d3f63c98707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 10/57] fix: expanding a term divided by a constant was not
 idempotent and could abort

---
 .../symbolic/symbolic_expression_cell.cc      | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 45a6504..97525e9 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1157,71 +1157,71 @@ class DivExpandVisitor {
     }
   }
   Expression VisitVariable(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitConstant(const Expression& e, const double n) const {
     return e / n;
   }
   Expression VisitRealConstant(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitLog(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitPow(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitAbs(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitExp(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitSqrt(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitSin(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitCos(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitTan(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitAsin(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitAcos(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitAtan(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitAtan2(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitSinh(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitCosh(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitTanh(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitMin(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitMax(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitIfThenElse(const Expression& e, const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
   Expression VisitUninterpretedFunction(const Expression& e,
                                         const double n) const {
-    return e / n;
+    return (1.0 / n) * e;
   }
 
   // Makes VisitExpression a friend of this class so that VisitExpression can
-- 
2.43.0


From 7f7bd554010af2466cb7719d5cabe06729178dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 11/57] fix: clause and CNF tests did not accept a negated
 quantified literal

---
 dreal/symbolic/symbolic.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..a36a533 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -104,8 +104,10 @@ bool is_clause(const Formula& f) {
   if (is_disjunction(f)) {
     const auto& operands = get_operands(f);
     const bool result{
-        all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+        all_of(operands.cbegin(), operands.cend(), [](const Formula& formula) {
+          return is_atomic(formula) ||
+                 (is_negation(formula) && is_atomic(get_operand(formula)));
+        })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,7 +131,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From 04e160a58796825f4d70c3f8f244f928c68e87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 12/57] fix: definitional clauses of a quantified formula could
 contain a negated disjunction

---
 dreal/util/tseitin_cnfizer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..480dae8 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -133,12 +133,15 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this, &quantified_variables](
+                                const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // Without the quantifier, the clause can be a disjunction, which
+          // needs a name of its own to be used as a literal.
+          return this->Visit(clause);
         }
       })};
 
-- 
2.43.0


From 946e68fcfb02d37f230deaae4e3bc9a88a1c1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 13/57] fix: definitional conversion aborted when the operands
 of a connective became equal

---
 dreal/util/tseitin_cnfizer.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 480dae8..a183cf8 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -68,8 +68,8 @@ class TseitinCnfizerStat : public Stat {
 
 // Forward declarations for the helper functions.
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses);
-void CnfizeNegation(const Variable& b, const Formula& f,
-                    vector<Formula>* clauses);
+void CnfizeLiteral(const Variable& b, const Formula& f,
+                   vector<Formula>* clauses);
 void CnfizeConjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
 void CnfizeDisjunction(const Variable& b, const Formula& f,
@@ -199,31 +199,24 @@ namespace {
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses) {
   switch (f.get_kind()) {
     case FormulaKind::False:
-      DREAL_UNREACHABLE();
     case FormulaKind::True:
-      DREAL_UNREACHABLE();
     case FormulaKind::Var:
-      DREAL_UNREACHABLE();
     case FormulaKind::Eq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Neq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Gt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Geq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Lt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Leq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Forall:
-      DREAL_UNREACHABLE();
+      // The operands of a conjunction or a disjunction are all converted to
+      // the same formula (i.e. (∀x. b) ∨ b).
+      return CnfizeLiteral(b, f, clauses);
     case FormulaKind::And:
       return CnfizeConjunction(b, f, clauses);
     case FormulaKind::Or:
       return CnfizeDisjunction(b, f, clauses);
     case FormulaKind::Not:
-      return CnfizeNegation(b, f, clauses);
+      return CnfizeLiteral(b, f, clauses);
   }
   DREAL_UNREACHABLE();
 }
@@ -245,8 +238,8 @@ void AddIff(const Formula& f1, const Formula& f2, vector<Formula>* clauses) {
 //   b ⇔ ¬b₁
 // = (b → ¬b₁) ∧ (¬b₁ → b)
 // = (¬b ∨ ¬b₁) ∧ (b₁ ∨ b)   (✓CNF)
-void CnfizeNegation(const Variable& b, const Formula& f,
-                    vector<Formula>* clauses) {
+void CnfizeLiteral(const Variable& b, const Formula& f,
+                   vector<Formula>* clauses) {
   AddIff(Formula{b}, f, clauses);
 }  // namespace
 
-- 
2.43.0


From 88476e7996ba4edc100f1a5c74eeacd53474d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 14/57] fix: delta-strengthening changed the conditions of
 if-then-else terms

---
 dreal/symbolic/symbolic.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index a36a533..4d23055 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -266,10 +266,10 @@ class DeltaStrengthenVisitor {
     return max(Visit(get_first_argument(e), delta),
                Visit(get_second_argument(e), delta));
   }
-  Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
-                        Visit(get_then_expression(e), delta),
-                        Visit(get_else_expression(e), delta));
+  Expression VisitIfThenElse(const Expression& e, const double) const {
+    // Changing the condition changes which of the two values is taken, which
+    // neither strengthens nor weakens the formula including `e`.
+    return e;
   }
   Expression VisitUninterpretedFunction(const Expression& e,
                                         const double) const {
-- 
2.43.0


From 613c4a6762f1475698a490185adb758c1714c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 15/57] fix: expanding sums of quotients was not idempotent and
 could abort

---
 .../symbolic/symbolic_expression_cell.cc      | 74 +++++++++++++++----
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 97525e9..b137098 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -128,6 +128,15 @@ bool determine_polynomial(const Expression& base, const Expression& exponent) {
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
                                 const Expression& e3);
 
+// Helper function multiplying each quotient in @p e by its coefficient: a sum
+// of expanded terms can include c * (e1 / e2) where `c ≠ 1`, because adding up
+// the same quotients merges them into one. It rewrites this to (c * e1) / e2.
+Expression ExpandCoefficientsOfQuotients(const Expression& e);
+
+// Helper function expanding (e1 / e2). It assumes that both of e1 and e2 are
+// already expanded.
+Expression ExpandDivision(const Expression& e1, const Expression& e2);
+
 // Helper function expanding (e1 * e2). It assumes that both of e1 and e2 are
 // already expanded.
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
@@ -145,7 +154,7 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
       const double c_i{p.second};
       ret += ExpandMultiplication(c_i, e_1_i, e2);
     }
-    return ret;
+    return ExpandCoefficientsOfQuotients(ret);
   }
   if (is_addition(e2)) {
     //   e1 * (c0 + c1 * e_{2,1} + ... + c_n * e_{2, n})
@@ -157,7 +166,7 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
       const double c_i{p.second};
       ret += ExpandMultiplication(e1, c_i, e_2_i);
     }
-    return ret;
+    return ExpandCoefficientsOfQuotients(ret);
   }
   if (is_division(e1)) {
     const Expression& e1_1{get_first_argument(e1)};
@@ -170,14 +179,14 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
       // precondition.
       const Expression& e2_1{get_first_argument(e2)};
       const Expression& e2_2{get_second_argument(e2)};
-      return ExpandMultiplication(e1_1, e2_1) /
-             ExpandMultiplication(e1_2, e2_2);
+      return ExpandDivision(ExpandMultiplication(e1_1, e2_1),
+                            ExpandMultiplication(e1_2, e2_2));
     }
     //    ((e1_1 / e1_2) * e2).Expand()
     // => (e1_1 * e2).Expand() / e2.
     //
     // Note that e1_1, e1_2, and e_2 are already expanded by the precondition.
-    return ExpandMultiplication(e1_1, e2) / e1_2;
+    return ExpandDivision(ExpandMultiplication(e1_1, e2), e1_2);
   }
   if (is_division(e2)) {
     //    (e1 * (e2_1 / e2_2)).Expand()
@@ -186,7 +195,7 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
     // Note that e1, e2_1, and e2_2 are already expanded by the precondition.
     const Expression& e2_1{get_first_argument(e2)};
     const Expression& e2_2{get_second_argument(e2)};
-    return ExpandMultiplication(e1, e2_1) / e2_2;
+    return ExpandDivision(ExpandMultiplication(e1, e2_1), e2_2);
   }
   return e1 * e2;
 }
@@ -196,6 +205,36 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
   return ExpandMultiplication(ExpandMultiplication(e1, e2), e3);
 }
 
+Expression ExpandCoefficientsOfQuotients(const Expression& e) {
+  if (is_multiplication(e)) {
+    // c * (e1 / e2) => (c * e1) / e2.
+    const auto& m = get_base_to_exponent_map_in_multiplication(e);
+    if (m.size() == 1 && is_division(m.begin()->first) &&
+        is_one(m.begin()->second)) {
+      return ExpandMultiplication(get_constant_in_multiplication(e),
+                                  m.begin()->first);
+    }
+    return e;
+  }
+  if (!is_addition(e)) {
+    return e;
+  }
+  Expression ret{get_constant_in_addition(e)};
+  bool changed{false};
+  for (const auto& p : get_expr_to_coeff_map_in_addition(e)) {
+    const Expression& e_i{p.first};
+    const double c_i{p.second};
+    if (is_division(e_i) && c_i != 1.0) {
+      ret += ExpandMultiplication(c_i, e_i);
+      changed = true;
+    } else {
+      ret += c_i * e_i;
+    }
+  }
+  // The new quotients can be merged again.
+  return changed ? ExpandCoefficientsOfQuotients(ret) : e;
+}
+
 // Helper function expanding pow(base, n). It assumes that base is expanded.
 Expression ExpandPow(const Expression& base, const int n) {
   // Precondition: base is already expanded.
@@ -604,7 +643,7 @@ Expression ExpressionAdd::Expand() {
     const double c_i{p.second};
     ret += ExpandMultiplication(e_i.Expand(), c_i);
   }
-  return ret;
+  return ExpandCoefficientsOfQuotients(ret);
 }
 
 Expression ExpressionAdd::Substitute(const ExpressionSubstitution& expr_subst,
@@ -1131,7 +1170,7 @@ class DivExpandVisitor {
     ExpressionAddFactory factory(constant / n, {});
     for (const pair<const Expression, double>& p :
          get_expr_to_coeff_map_in_addition(e)) {
-      factory.AddExpression(p.second / n * p.first);
+      factory.AddExpression(ExpandMultiplication(p.second / n, p.first));
     }
     return factory.GetExpression();
   }
@@ -1145,7 +1184,7 @@ class DivExpandVisitor {
   Expression VisitDivision(const Expression& e, const double n) const {
     const Expression& e1{get_first_argument(e)};
     const Expression& e2{get_second_argument(e)};
-    if (is_constant(e2)) {
+    if (is_constant(e2) && !is_zero(e2)) {
       // e =  (e₁ / m) / n
       //   => Simplify `e₁ / (n * m)`
       const double m{get_constant_value(e2)};
@@ -1229,18 +1268,25 @@ class DivExpandVisitor {
   friend Expression dreal::drake::symbolic::VisitExpression<Expression>(
       const DivExpandVisitor*, const Expression&, const double&);
 };
+
+Expression ExpandDivision(const Expression& e1, const Expression& e2) {
+  if (is_constant(e2) && !is_zero(e2)) {
+    // Simplifies the 'division by a constant' case, using DivExpandVisitor
+    // defined above.
+    return DivExpandVisitor{}.Simplify(e1, get_constant_value(e2));
+  }
+  return e1 / e2;
+}
 }  // namespace
 
 Expression ExpressionDiv::Expand() {
   const Expression& e1{get_first_argument()};
   const Expression& e2{get_second_argument()};
   const Expression e1_expand{e1.Expand()};
-  if (is_constant(e2)) {
-    // Simplifies the 'division by a constant' case, using DivExpandVisitor
-    // defined above.
-    return DivExpandVisitor{}.Simplify(e1_expand, get_constant_value(e2));
-  }
   const Expression e2_expand{e2.Expand()};
+  if (is_constant(e2_expand) && !is_zero(e2_expand)) {
+    return ExpandDivision(e1_expand, e2_expand);
+  }
   if (!e1.EqualTo(e1_expand) || !e2.EqualTo(e2_expand)) {
     return e1_expand / e2_expand;
   } else {
-- 
2.43.0


From 486475cd621cdce4c979469a3d503276fbed7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 16/57] fix: an equality without variables evaluated
 structurally in an empty environment

---
 .../dreal/symbolic/symbolic_formula_cell.cc                   | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
index 3ec85b7..47dce4b 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
@@ -245,10 +245,6 @@ namespace {
 bool CheckStructuralEqualityUptoPartialEvaluation(const Expression& e1,
                                                   const Expression& e2,
                                                   const Environment& env) {
-  // Trivial case where env = ∅.
-  if (env.empty()) {
-    return e1.EqualTo(e2);
-  }
   // Since `Expression::Evaluate` is faster than `Expression::EvaluatePartial`,
   // we use:
   //  - `Expression::Evaluate`        if if (vars(e₁) ∪ vars(e₂) ⊆ dom(env).
-- 
2.43.0


From 2f84276348a7fe12beecefc23eadb08dade2544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 17/57] fix: a constant factor was merged into a power of the
 same constant only in some orders

---
 .../dreal/symbolic/symbolic_expression.cc                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index d4336f8..b870cb0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -556,8 +556,10 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
         lhs = pow(e1, e2 + e4);
         return lhs;
       }
-    } else if (e1.EqualTo(rhs)) {
+    } else if (!is_constant(rhs) && e1.EqualTo(rhs)) {
       // Simplification: pow(e1, e2) * e1 => pow(e1, e2 + 1)
+      //
+      // Note that a constant factor is kept as a coefficient.
       const Expression& e2{get_second_argument(lhs)};
       lhs = pow(e1, e2 + 1);
       return lhs;
@@ -565,8 +567,10 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   } else {
     if (is_pow(rhs)) {
       const Expression& e1{get_first_argument(rhs)};
-      if (e1.EqualTo(lhs)) {
+      if (!is_constant(lhs) && e1.EqualTo(lhs)) {
         // Simplification: (lhs * rhs == e1 * pow(e1, e2)) => pow(e1, 1 + e2)
+        //
+        // Note that a constant factor is kept as a coefficient.
         const Expression& e2{get_second_argument(rhs)};
         lhs = pow(e1, 1 + e2);
         return lhs;
-- 
2.43.0


From ecce31b17251aeaace6202e3b63f8f89e3b466a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 18/57] fix: the derivative of a product was undefined where a
 factor is zero

---
 .../symbolic/symbolic_expression_cell.cc      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index b137098..65618c9 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -947,21 +947,23 @@ Expression DifferentiatePow(const Expression& f, const Expression& g,
 }
 
 Expression ExpressionMul::Differentiate(const Variable& x) const {
-  // ∂/∂x (c   * f_1^g_1  * f_2^g_2        * ... * f_n^g_n
-  //= c * [expr * (∂/∂x f_1^g_1) / f_1^g_1 +
-  //       expr * (∂/∂x f_2^g_2) / f_2^g_2 +
-  //                      ...              +
-  //       expr * (∂/∂x f_n^g_n) / f_n^g_n]
+  // ∂/∂x (c * f_1^g_1 * f_2^g_2 * ... * f_n^g_n)
+  //= c * [(∂/∂x f_1^g_1) * f_2^g_2 * ... * f_n^g_n +
+  //       f_1^g_1 * (∂/∂x f_2^g_2) * ... * f_n^g_n +
+  //                      ...                       +
+  //       f_1^g_1 * f_2^g_2 * ... * (∂/∂x f_n^g_n)]
   //
-  // where expr = (f_1^g_1 * f_2^g_2 * ... * f_n^g_n).
+  // Note that we do not compute (∂/∂x f_i^g_i) * (expr / f_i^g_i) where expr =
+  // (f_1^g_1 * ... * f_n^g_n) because it is not defined where f_i is zero.
   const map<Expression, Expression>& m{base_to_exponent_map_};
   Expression ret{Expression::Zero()};
-  const Expression expr{
-      ExpressionMulFactory{1.0, base_to_exponent_map_}.GetExpression()};
   for (const auto& term : m) {
     const Expression& base{term.first};
     const Expression& exponent{term.second};
-    ret += expr * DifferentiatePow(base, exponent, x) * pow(base, -exponent);
+    map<Expression, Expression> others{m};
+    others.erase(base);
+    ret += DifferentiatePow(base, exponent, x) *
+           ExpressionMulFactory{1.0, others}.GetExpression();
   }
   return constant_ * ret;
 }
-- 
2.43.0


From f7d0b2d48a7b724556c4d7cbd4ba3933cf20970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 19/57] fix: printing a sum or product lost digits of
 coefficients and changed the stream's precision

---
 .../symbolic/symbolic_expression_cell.cc      | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 65618c9..6ad7375 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -42,6 +42,14 @@ using std::setprecision;
 using std::string;
 
 namespace {
+// Prints `v` with the maximum precision, no matter what the formatting state of
+// `os` is, and without changing it.
+ostream& DisplayConstant(ostream& os, const double v) {
+  ostringstream oss;
+  oss << setprecision(numeric_limits<double>::max_digits10) << v;
+  return os << oss.str();
+}
+
 bool is_integer(const double v) {
   // v should be in [int_min, int_max].
   if (!((numeric_limits<int>::lowest() <= v) &&
@@ -458,9 +466,7 @@ Expression ExpressionConstant::Differentiate(const Variable&) const {
 }
 
 ostream& ExpressionConstant::Display(ostream& os) const {
-  ostringstream oss;
-  oss << setprecision(numeric_limits<double>::max_digits10) << v_;
-  return os << oss.str();
+  return DisplayConstant(os, v_);
 }
 
 ExpressionRealConstant::ExpressionRealConstant(const double lb, const double ub,
@@ -675,7 +681,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -696,13 +702,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      DisplayConstant(os, coeff) << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      DisplayConstant(os, -coeff) << " * ";
     }
   }
   os << term;
@@ -973,7 +979,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From b683b149b455fba4c9045b4edda92515ce7ee42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 20/57] fix: prefix printing lost digits of constants on
 streams with format flags

---
 dreal/symbolic/prefix_printer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dreal/symbolic/prefix_printer.cc b/dreal/symbolic/prefix_printer.cc
index 1655082..d0915ce 100644
--- a/dreal/symbolic/prefix_printer.cc
+++ b/dreal/symbolic/prefix_printer.cc
@@ -28,11 +28,16 @@ namespace dreal {
 
 namespace {
 ostream& print_constant(ostream& os, double c) {
+  // Only takes the precision from `os`. Other formatting flags such as
+  // std::fixed would make it lose digits.
+  ostringstream oss;
+  oss.precision(os.precision());
   if (c >= 0) {
-    return os << c;
+    oss << c;
   } else {
-    return os << "(- " << (-c) << ")";
+    oss << "(- " << (-c) << ")";
   }
+  return os << oss.str();
 }
 
 }  // namespace
-- 
2.43.0


From a0a434a651b138ed4bec613eb608a6f3e195de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 21/57] fix: adding the first variable to an emptied box
 brought it back to life

An assertion of false before any declaration emptied the box; the next
declaration replaced the empty interval, and the problem was satisfiable.
---
 dreal/util/box.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 7791f9b..e33c602 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -79,6 +79,7 @@ void Box::Add(const Variable& v) {
             *var_to_idx_);
     idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);
   }
+  const bool was_empty{empty()};
   const int n{size()};
   idx_to_var_->emplace(n, v);
   var_to_idx_->emplace(v, n);
@@ -94,6 +95,10 @@ void Box::Add(const Variable& v) {
     values_[n] =
         Interval(-numeric_limits<int>::max(), numeric_limits<int>::max());
   }
+  if (was_empty) {
+    // The first variable of an empty box does not bring it back to life.
+    set_empty();
+  }
 }
 
 void Box::Add(const Variable& v, const double lb, const double ub) {
@@ -109,7 +114,9 @@ void Box::Add(const Variable& v, const double lb, const double ub) {
   DREAL_ASSERT(v.get_type() != Variable::Type::INTEGER ||
                (is_integer(lb) && is_integer(ub)));
 
-  values_[(*var_to_idx_)[v]] = Interval{lb, ub};
+  if (!empty()) {
+    values_[(*var_to_idx_)[v]] = Interval{lb, ub};
+  }
 }
 
 bool Box::empty() const { return values_.is_empty(); }
-- 
2.43.0


From a9fa6f8ffcab0a82695f0033880b2ffe11c7ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 22/57] fix: bounds absorbed from assertions on integer
 variables were not integers

x == 2.5 for an integer x made a box with x = 2.5, x >= 1.5 a box with a
fractional end, and x > 2 kept 2, which nothing removed later.  The strict
upper bound of a continuous variable moved up, not down, for bounds that are
not above the smallest normal number.
---
 dreal/solver/filter_assertion.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..46e7a88 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -24,9 +24,15 @@
 namespace dreal {
 namespace {
 
+using std::ceil;
+using std::floor;
 using std::nextafter;
 using std::numeric_limits;
 
+bool IsIntegral(const Variable& var) {
+  return var.get_type() != Variable::Type::CONTINUOUS;
+}
+
 // Constrains the @p box with ` box[var].lb() == v`.
 FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
                                               const double v, Box* const box) {
@@ -36,7 +42,7 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
   if (lb == ub && lb == v) {
     return FilterAssertionResult::FilteredWithoutChange;
   }
-  if (intv.contains(v)) {
+  if (intv.contains(v) && !(IsIntegral(var) && v != floor(v))) {
     intv = v;
   } else {
     box->set_empty();
@@ -55,7 +61,8 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
   if (old_lb == new_lb && old_ub == new_ub) {
     return FilterAssertionResult::FilteredWithoutChange;
   }
-  intv &= Box::Interval{new_lb, new_ub};
+  intv &= IsIntegral(var) ? Box::Interval{ceil(new_lb), floor(new_ub)}
+                          : Box::Interval{new_lb, new_ub};
   if (intv.is_empty()) {
     box->set_empty();
   }
@@ -63,8 +70,10 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].lb() >= v`.
-FilterAssertionResult UpdateLowerBound(const Variable& var, const double new_lb,
+FilterAssertionResult UpdateLowerBound(const Variable& var, const double bound,
                                        Box* const box) {
+  // An integer variable is not less than the smallest integer above its bound.
+  const double new_lb{IsIntegral(var) ? ceil(bound) : bound};
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
@@ -95,8 +104,7 @@ FilterAssertionResult UpdateStrictLowerBound(const Variable& var,
                               box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
-      UpdateLowerBound(var, v, box);
-      return FilterAssertionResult::NotFiltered;
+      return UpdateLowerBound(var, floor(v) + 1, box);
     case Variable::Type::BOOLEAN:
       DREAL_UNREACHABLE();
   }
@@ -104,8 +112,11 @@ FilterAssertionResult UpdateStrictLowerBound(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].ub() <= v`.
-FilterAssertionResult UpdateUpperBound(const Variable& var, const double new_ub,
+FilterAssertionResult UpdateUpperBound(const Variable& var, const double bound,
                                        Box* const box) {
+  // An integer variable is not greater than the largest integer below its
+  // bound.
+  const double new_ub{IsIntegral(var) ? floor(bound) : bound};
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
@@ -132,12 +143,11 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
-      UpdateUpperBound(var, v, box);
-      return FilterAssertionResult::NotFiltered;
+      return UpdateUpperBound(var, ceil(v) - 1, box);
     case Variable::Type::BOOLEAN:
       DREAL_UNREACHABLE();
   }
-- 
2.43.0


From 857d549838c2c030d765f86cc5839ef403f354e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 23/57] fix: the worklist fixpoint never looked at its
 termination condition

Its inner loop went back to the first pending contractor instead of ending
the sweep, so it ran until nothing changed at all.  Where pruning converges
slowly (x == y and y == sin(x)) that is practically forever.
---
 dreal/contractor/contractor_worklist_fixpoint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor_worklist_fixpoint.cc b/dreal/contractor/contractor_worklist_fixpoint.cc
index bd627a2..b3899ec 100644
--- a/dreal/contractor/contractor_worklist_fixpoint.cc
+++ b/dreal/contractor/contractor_worklist_fixpoint.cc
@@ -149,7 +149,7 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
       }
       ctc_idx = worklist.find_next(ctc_idx);
       if (ctc_idx == DynamicBitset::npos) {
-        ctc_idx = worklist.find_first();
+        break;
       }
     }
   } while (!term_cond_(old_iv, iv));
-- 
2.43.0


From eef1150907f140531b7e668c449294197e85fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 24/57] fix: a join reported dimensions changed that it left
 unchanged

It listed every dimension that one of its branches changed, although the
union of the branches can be the box it was given.  A worklist containing a
join then never became empty.
---
 dreal/contractor/contractor_join.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dreal/contractor/contractor_join.cc b/dreal/contractor/contractor_join.cc
index b40349e..e567cae 100644
--- a/dreal/contractor/contractor_join.cc
+++ b/dreal/contractor/contractor_join.cc
@@ -48,6 +48,15 @@ void ContractorJoin::Prune(ContractorStatus* cs) const {
     contractor.Prune(&state_i);
     cs->InplaceJoin(state_i);
   }
+  if (!cs->box().empty()) {
+    // A dimension which a single branch changed can be unchanged in the join.
+    cs->mutable_output() = saved_original.output();
+    for (int i = 0; i < cs->box().size(); ++i) {
+      if (cs->box()[i] != saved_original.box()[i]) {
+        cs->mutable_output().set(i);
+      }
+    }
+  }
 }
 
 ostream& ContractorJoin::display(ostream& os) const {
-- 
2.43.0


From c30266ee2c007789461f4f6c7f327c47d29e4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 25/57] fix: a sequence of contractors that do nothing broke an
 invariant

A conjunction of disequalities has no contractor but the identity, which is
flattened away, and the empty sequence failed an assertion.
---
 dreal/contractor/contractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor.cc b/dreal/contractor/contractor.cc
index e46bcc6..752f4ff 100644
--- a/dreal/contractor/contractor.cc
+++ b/dreal/contractor/contractor.cc
@@ -133,7 +133,12 @@ Contractor make_contractor_integer(const Box& box, const Config& config) {
 
 Contractor make_contractor_seq(const vector<Contractor>& contractors,
                                const Config& config) {
-  return Contractor{make_shared<ContractorSeq>(Flatten(contractors), config)};
+  vector<Contractor> ctcs{Flatten(contractors)};
+  if (ctcs.empty()) {
+    return make_contractor_id(config);
+  } else {
+    return Contractor{make_shared<ContractorSeq>(std::move(ctcs), config)};
+  }
 }
 
 Contractor make_contractor_ibex_fwdbwd(Formula f, const Box& box,
-- 
2.43.0


From b48665c8c6cc50530578b8bd308ba626e7d3c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 26/57] fix: decimal numerals with a plus sign could not be
 converted

The scanner of the SMT-LIB reader accepts +0.1, but the lower bound was
computed from "-+0.1", which std::stod rejects.
---
 dreal/util/string_to_interval.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..cc256fc 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -28,6 +28,8 @@ Box::Interval StringToInterval(const string& s) {
   double lb{};
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
+  } else if (s[0] == '+') {
+    lb = -stod("-" + s.substr(1));
   } else {
     lb = -stod("-" + s);
   }
-- 
2.43.0


From 882e5ea4680eed77e1800cdcb790debb3c1ac679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 27/57] fix: theory solver reused contractors built for another
 sequence of variables

---
 dreal/solver/theory_solver.cc | 14 ++++++++++++++
 dreal/solver/theory_solver.h  |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..661ad15 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
 #include <iostream>
 #include <limits>
@@ -37,6 +38,7 @@
 namespace dreal {
 
 using std::cout;
+using std::equal;
 using std::make_unique;
 using std::numeric_limits;
 using std::set;
@@ -269,6 +271,18 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
   ContractorStatus contractor_status(box);
 
+  // The cached contractors are not applicable to a box over another sequence
+  // of variables.
+  const vector<Variable>& variables{box.variables()};
+  if (variables.size() != cached_variables_.size() ||
+      !equal(variables.begin(), variables.end(), cached_variables_.begin(),
+             [](const Variable& v1, const Variable& v2) {
+               return v1.equal_to(v2);
+             })) {
+    contractor_cache_.clear();
+    cached_variables_ = variables;
+  }
+
   // Icp Step
   const optional<Contractor> contractor{
       BuildContractor(assertions, &contractor_status)};
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..839be07 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -62,6 +62,9 @@ class TheorySolver {
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
+  // A contractor refers to the dimensions of a box by position.
+  // `contractor_cache_` is valid for the boxes over `cached_variables_`.
+  std::vector<Variable> cached_variables_;
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
-- 
2.43.0


From b689c379f22fbf7c5992a8bb06d738e433da9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 28/57] fix: a model could include variables introduced by the
 solver after a pop

---
 dreal/solver/context_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..dfbfd4d 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -35,6 +35,7 @@
 
 namespace dreal {
 
+using std::all_of;
 using std::find_if;
 using std::isfinite;
 using std::ostringstream;
@@ -419,7 +420,8 @@ void Context::Impl::SetOption(const string& key, const string& val) {
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-  if (static_cast<int>(model_variables_.size()) == box.size()) {
+  if (all_of(box.variables().begin(), box.variables().end(),
+             [this](const Variable& v) { return is_model_variable(v); })) {
     // Every variable is a model variable. Simply return the @p box.
     return box;
   }
-- 
2.43.0


From a2a2c561ebce7234c54c7f5b4d91900af20a4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 29/57] fix: changing a bound dropped the assertions absorbed
 in the box

---
 dreal/solver/context_impl.cc | 33 ++++++++++++++++++++++++++++-----
 dreal/solver/context_impl.h  |  6 ++++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index dfbfd4d..9aeb28f 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -94,20 +94,21 @@ Context::Impl::Impl(Config config)
       sat_solver_{config_},
       theory_solver_{config_} {
   boxes_.push_back(Box{});
+  domains_.push_back(Box{});
 }
 
 void Context::Impl::Assert(const Formula& f) {
   if (is_true(f)) {
     return;
   }
-  if (box().empty()) {
-    return;
-  }
   if (is_false(f)) {
     box().set_empty();
+    filtered_.push_back(f);
     return;
   }
-  if (FilterAssertion(f, &box()) == FilterAssertionResult::NotFiltered) {
+  // Note that an empty box can be replaced by a non-empty one in SetInterval.
+  if (box().empty() ||
+      FilterAssertion(f, &box()) == FilterAssertionResult::NotFiltered) {
     DREAL_LOG_DEBUG("ContextImpl::Assert: {} is added.", f);
     IfThenElseEliminator ite_eliminator;
     const Formula no_ite{ite_eliminator.Process(f)};
@@ -121,6 +122,7 @@ void Context::Impl::Assert(const Formula& f) {
   } else {
     DREAL_LOG_DEBUG("ContextImpl::Assert: {} is not added.", f);
     DREAL_LOG_DEBUG("Box=\n{}", box());
+    filtered_.push_back(f);
     return;
   }
 }
@@ -228,6 +230,7 @@ void Context::Impl::AddToBox(const Variable& v) {
       }) == variables.end()) {
     // v is not in box.
     box().Add(v);
+    domains_.last().Add(v);
   }
 }
 
@@ -332,6 +335,8 @@ void Context::Impl::Pop() {
   DREAL_LOG_DEBUG("ContextImpl::Pop()");
   stack_.pop();
   boxes_.pop();
+  domains_.pop();
+  filtered_.pop();
   sat_solver_.Pop();
 }
 
@@ -340,6 +345,9 @@ void Context::Impl::Push() {
   sat_solver_.Push();
   boxes_.push();
   boxes_.push_back(boxes_.last());
+  domains_.push();
+  domains_.push_back(domains_.last());
+  filtered_.push();
   stack_.push();
 }
 
@@ -356,7 +364,22 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
-  box()[v] = Box::Interval{lb, ub};
+  domains_.last()[v] = Box::Interval{lb, ub};
+  if (filtered_.empty()) {
+    box()[v] = Box::Interval{lb, ub};
+    return;
+  }
+  // Apply the assertions to the updated domains again.
+  box() = domains_.last();
+  for (const Formula& f : filtered_) {
+    if (is_false(f)) {
+      box().set_empty();
+    }
+    if (box().empty()) {
+      return;
+    }
+    FilterAssertion(f, &box());
+  }
 }
 
 void Context::Impl::SetLogic(const Logic& logic) {
diff --git a/dreal/solver/context_impl.h b/dreal/solver/context_impl.h
index 03f8134..f98e7f5 100644
--- a/dreal/solver/context_impl.h
+++ b/dreal/solver/context_impl.h
@@ -90,6 +90,12 @@ class Context::Impl {
 
   // Stack of boxes. The top one is the current box.
   ScopedVector<Box> boxes_;
+  // Stack of the boxes which only reflect the domains of variables. The top
+  // one is what the current box is made of with `filtered_`.
+  ScopedVector<Box> domains_;
+  // Stack of the asserted formulas which are applied to boxes, instead of
+  // being kept in `stack_`.
+  ScopedVector<Formula> filtered_;
   // Stack of asserted formulas.
   ScopedVector<Formula> stack_;
   SatSolver sat_solver_;
-- 
2.43.0


From 29a8401d268c8b67e6113a5c4910ae4971dcbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 30/57] fix: clauses learned within some bounds were kept when
 the bounds grew

---
 dreal/solver/context_impl.cc |  9 +++++++--
 dreal/solver/sat_solver.cc   | 15 +++++++++++++++
 dreal/solver/sat_solver.h    |  7 +++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 9aeb28f..b2398a1 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -364,9 +364,14 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
-  domains_.last()[v] = Box::Interval{lb, ub};
+  const Box::Interval domain{lb, ub};
+  if (!domain.is_subset(domains_.last()[v])) {
+    // The learned clauses are only valid for subsets of the previous domains.
+    sat_solver_.RetractLearnedClauses();
+  }
+  domains_.last()[v] = domain;
   if (filtered_.empty()) {
-    box()[v] = Box::Interval{lb, ub};
+    box()[v] = domain;
     return;
   }
   // Apply the assertions to the updated domains again.
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..5b2b31a 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -71,12 +71,24 @@ void SatSolver::AddFormulas(const vector<Formula>& formulas) {
 }
 
 void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
+  if (learned_clause_guard_ == 0) {
+    learned_clause_guard_ = picosat_inc_max_var(sat_);
+  }
+  picosat_add(sat_, -learned_clause_guard_);
   for (const Formula& f : formulas) {
     AddLiteral(!predicate_abstractor_.Convert(f));
   }
   picosat_add(sat_, 0);
 }
 
+void SatSolver::RetractLearnedClauses() {
+  if (learned_clause_guard_ != 0) {
+    picosat_add(sat_, -learned_clause_guard_);
+    picosat_add(sat_, 0);
+    learned_clause_guard_ = 0;
+  }
+}
+
 void SatSolver::AddClauses(const vector<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddClause(f);
@@ -126,6 +138,9 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
   // Call SAT solver.
   TimerGuard check_sat_timer_guard(&stat.timer_check_sat_,
                                    DREAL_LOG_INFO_ENABLED);
+  if (learned_clause_guard_ != 0) {
+    picosat_assume(sat_, learned_clause_guard_);
+  }
   const int ret{picosat_sat(sat_, -1 /* decision_limit == no limit */)};
   check_sat_timer_guard.pause();
 
diff --git a/dreal/solver/sat_solver.h b/dreal/solver/sat_solver.h
index 71163b4..dfd5b07 100644
--- a/dreal/solver/sat_solver.h
+++ b/dreal/solver/sat_solver.h
@@ -73,6 +73,9 @@ class SatSolver {
   /// the solver.
   void AddLearnedClause(const std::set<Formula>& formulas);
 
+  /// Withdraws the clauses added by `AddLearnedClause`.
+  void RetractLearnedClauses();
+
   /// Checks the satisfiability of the current configuration.
   ///
   /// @returns a witness, satisfying model if the problem is satisfiable.
@@ -137,6 +140,10 @@ class SatSolver {
   ///
   /// TODO(soonho): Remove this hack when it's not needed.
   bool has_picosat_pop_used_{false};
+
+  /// A PicoSat variable g. A learned clause C is added as (¬g ∨ C) and g is
+  /// assumed in each check. Zero if there is none.
+  int learned_clause_guard_{0};
 };
 
 }  // namespace dreal
-- 
2.43.0


From 254969604a59cf802a46ee26d8d57f8c40f121d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 31/57] fix: a quantified integer variable was instantiated
 with a fraction

The local optimization and the mid-point of a counterexample may give a
non-integral value for a universally quantified integer variable. Pruning with
it removed solutions.
---
 dreal/contractor/contractor_forall.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor_forall.h b/dreal/contractor/contractor_forall.h
index 683d8ee..25a2519 100644
--- a/dreal/contractor/contractor_forall.h
+++ b/dreal/contractor/contractor_forall.h
@@ -153,8 +153,11 @@ class ContractorForall : public ContractorCell {
     // counterexample. Narrow down the forall variables part by
     // taking the mid-points of counterexample.
     for (const Variable& forall_var : get_quantified_variables(f_)) {
+      const double mid{counterexample[forall_var].mid()};
+      // An integer variable has to be instantiated with an integer.
       contractor_status.mutable_box()[forall_var] =
-          counterexample[forall_var].mid();
+          forall_var.get_type() == Variable::Type::CONTINUOUS ? mid
+                                                              : std::round(mid);
     }
     contractor_.Prune(&contractor_status);
     if (contractor_status.box().empty()) {
-- 
2.43.0


From 8425e8e3c88883a46108d509ab9b6a4b45226754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 32/57] fix: an integer variable was bisected at fractional
 bounds

The fixed-point contractor may stop before the bounds of an integer variable
which another contractor narrowed are rounded, and Box::bisect_int was called
with them.
---
 dreal/solver/theory_solver.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 661ad15..c561f8e 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -218,12 +218,16 @@ optional<Contractor> TheorySolver::BuildContractor(
       DREAL_LOG_TRACE("TheorySolver::BuildContractor: CTCS = empty");
     }
   }
-  if (config_.use_worklist_fixpoint()) {
-    return make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
-                                             config_);
-  } else {
-    return make_contractor_fixpoint(DefaultTerminationCondition, ctcs, config_);
-  }
+  const Contractor fixpoint{
+      config_.use_worklist_fixpoint()
+          ? make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
+                                              config_)
+          : make_contractor_fixpoint(DefaultTerminationCondition, ctcs,
+                                     config_)};
+  // The fixed-point may stop right after a contractor left a non-integral bound
+  // on an integer variable.
+  return make_contractor_seq({fixpoint, make_contractor_integer(box, config_)},
+                             config_);
 }
 
 vector<FormulaEvaluator> TheorySolver::BuildFormulaEvaluator(
-- 
2.43.0


From 702608fc677651b1fbe0e70a6e5bb919a31753c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 33/57] fix: evaluating a quantified constraint mixed up
 variables

The intervals of variables which are not in the quantified constraint were
written over the first dimension of the box of the inner context. And a box for
which a counterexample is confirmed is reported unsatisfied, as it was otherwise
accepted when it could not be divided further.
---
 dreal/solver/forall_formula_evaluator.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..da67e5e 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,8 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  // `context` only has the variables of this formula, `box` may have others.
+  for (const Variable& v : variables()) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,22 +109,30 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : variables()) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
+    bool all_unsat{true};
     for (const RelationalFormulaEvaluator& evaluator : evaluators_) {
       const FormulaEvaluationResult eval_result = evaluator(*counterexample);
       double diam_i{0.0};
       if (eval_result.type() == FormulaEvaluationResult::Type::UNSAT) {
         diam_i = eval_result.evaluation().mag();
       } else {
+        all_unsat = false;
         diam_i = eval_result.evaluation().diam();
       }
       if (diam_i > max_diam) {
         max_diam = diam_i;
       }
     }
+    if (all_unsat) {
+      // The quantified formula does not hold for any point in the box with the
+      // universally quantified variables taken from the counterexample.
+      return FormulaEvaluationResult{FormulaEvaluationResult::Type::UNSAT,
+                                     Box::Interval(0.0, max_diam)};
+    }
     return FormulaEvaluationResult{FormulaEvaluationResult::Type::UNKNOWN,
                                    Box::Interval(0.0, max_diam)};
   } else {
-- 
2.43.0


From 81d3db8b1954814324887a0401f88e8692837ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 34/57] fix: quantified constraints kept the precision they
 were first checked with

TheorySolver caches contractors and evaluators, those of quantified formulas
are built for the precision at the time. After the precision was lowered, boxes
were accepted up to the previous one.
---
 dreal/solver/theory_solver.cc | 6 ++++++
 dreal/solver/theory_solver.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index c561f8e..224bf2c 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -286,6 +286,12 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
     contractor_cache_.clear();
     cached_variables_ = variables;
   }
+  // Those for the quantified formulas are built for a precision.
+  if (cached_precision_ != config_.precision()) {
+    contractor_cache_.clear();
+    formula_evaluator_cache_.clear();
+    cached_precision_ = config_.precision();
+  }
 
   // Icp Step
   const optional<Contractor> contractor{
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index 839be07..ca9e6d2 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -65,6 +65,7 @@ class TheorySolver {
   // A contractor refers to the dimensions of a box by position.
   // `contractor_cache_` is valid for the boxes over `cached_variables_`.
   std::vector<Variable> cached_variables_;
+  double cached_precision_{0.0};
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
-- 
2.43.0


From 07d686140d6dd357aeca56c9ff1386247da9bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 35/57] fix: minimising skipped the least and greatest value of
 an integer variable

The bounds of the variables the solution is compared over are strengthened by
the precision, which excludes the end points of the range of an integer.
---
 dreal/solver/context_impl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index b2398a1..0f74443 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -305,11 +305,15 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
     const Box::Interval& bound_on_x_i{box()[x_i]};
     const double lb_x_i{bound_on_x_i.lb()};
     const double ub_x_i{bound_on_x_i.ub()};
+    // The bounds are going to be strengthened, which would exclude the least
+    // and the greatest values of an integer variable.
+    const double slack{x_i.get_type() == Variable::Type::CONTINUOUS ? 0.0
+                                                                    : 0.5};
     if (isfinite(lb_x_i)) {
-      set_of_negated_phi.insert(!(lb_x_i <= y_i));
+      set_of_negated_phi.insert(!(lb_x_i - slack <= y_i));
     }
     if (isfinite(ub_x_i)) {
-      set_of_negated_phi.insert(!(y_i <= ub_x_i));
+      set_of_negated_phi.insert(!(y_i <= ub_x_i + slack));
     }
   }
 
-- 
2.43.0


From e3fb1ac2e9d6a3e86ae8191278c05af0004f7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 36/57] fix: a local over a parameter or a quantified variable
 was given one value

`let` introduces a variable for the local and asserts its definition at the top
level, where the parameter of a define-fun and the variable of a forall are free.
---
 dreal/smt2/driver.cc |  7 +++++++
 dreal/smt2/driver.h  | 11 +++++++++++
 dreal/smt2/parser.yy | 19 ++++++++++++++++++-
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 798d3aa..b3928c6 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -308,6 +308,13 @@ Variable Smt2Driver::DeclareLocalVariable(const string& name, const Sort sort) {
   return v;
 }
 
+bool Smt2Driver::IsBound(const Term& term) const {
+  const Variables& vars{term.type() == Term::Type::FORMULA
+                            ? term.formula().GetFreeVariables()
+                            : term.expression().GetVariables()};
+  return !intersect(vars, bound_variables_).empty();
+}
+
 const Variable& Smt2Driver::lookup_variable(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..a3b7a62 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -106,6 +106,14 @@ class Smt2Driver {
   /// cannot occur in an SMT-LIBv2 file.
   Variable DeclareLocalVariable(const std::string& name, Sort sort);
 
+  /// Records that @p v is a parameter of a function, a quantified variable, or
+  /// a local whose value depends on one.
+  void AddBoundVariable(const Variable& v) { bound_variables_.insert(v); }
+
+  /// Returns true if @p term mentions a variable which has been recorded by
+  /// AddBoundVariable.
+  bool IsBound(const Term& term) const;
+
   /// Handles define-fun.
   void DefineFun(const std::string& name,
                  const std::vector<Variable>& parameters, Sort return_type,
@@ -177,6 +185,9 @@ class Smt2Driver {
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
 
+  /// Parameters of functions, quantified variables, and locals over them.
+  Variables bound_variables_;
+
   /// Sequential value concatenated to names to make them unique.
   int64_t nextUniqueId_{};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..a5b3850 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -101,6 +101,7 @@
 %type <std::pair<Variables, Formula>>             variable_sort_list
 %type <std::vector<std::pair<std::string, Term>>> var_binding_list
 %type <std::pair<std::string, Term>>              var_binding
+%type <std::vector<std::pair<Variable, Term>>>    let_binding_list
 
 %type <Variable>              name_sort
 %type <std::vector<Variable>> name_sort_list
@@ -373,7 +374,11 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-            $$ = $5;
+            Term body{$5};
+            for (const auto& local : $4) {
+                body = body.Substitute(local.first, local.second);
+            }
+            $$ = body;
         }
         |       DOUBLE {
             const Box::Interval i{StringToInterval($1)};
@@ -494,6 +499,15 @@ let_binding_list: '(' var_binding_list ')' {
                 const Term& term{ binding.second };
                 const bool is_formula = term.type() == Term::Type::FORMULA;
                 const Sort sort = is_formula ? Sort::Bool : Sort::Real;
+                if (driver.IsBound(term)) {
+                    // The term depends on a parameter of a function or a
+                    // quantified variable. It has no value at this point, and
+                    // is put in place of the local.
+                    const Variable v{driver.RegisterVariable(name, sort)};
+                    driver.AddBoundVariable(v);
+                    $$.emplace_back(v, term);
+                    continue;
+                }
                 const Variable v{ driver.DeclareLocalVariable(name, sort) };
                 if (is_formula) {
                     const Formula fv{v};
@@ -518,6 +532,7 @@ exit_scope: /* */ {
 
 name_sort: '(' SYMBOL sort ')' {
             $$ = Variable{driver.DeclareLocalVariable($2, $3)};
+            driver.AddBoundVariable($$);
         }
         ;
 
@@ -548,11 +563,13 @@ variable_sort_list: /* empty list */ { $$ = std::pair<Variables, Formula>(Variab
 
 variable_sort: '(' SYMBOL sort ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.AddBoundVariable(v);
             const double inf = std::numeric_limits<double>::infinity();
             $$ = std::tuple<Variable, double, double>(v, -inf, inf);
         }
         |       '(' SYMBOL sort '[' term ',' term ']' ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.AddBoundVariable(v);
             const double lb = $5.expression().Evaluate();
             const double ub = $7.expression().Evaluate();
             $$ = std::tuple<Variable, double, double>(v, lb, ub);
-- 
2.43.0


From 51478435f1332340b29bef67cb66b3d997fd64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 37/57] fix: a quantified variable not used in the body escaped
 its quantifier

The constraint over its range was kept while the variable was not quantified.
---
 dreal/smt2/parser.yy | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index a5b3850..7008c26 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -366,11 +366,12 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
-	    const Variables quantified_variables = intersect(vars, body.GetFreeVariables());
-	    if (quantified_variables.empty()) {
+	    if (intersect(vars, body.GetFreeVariables()).empty()) {
 	        $$ = body;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+                // A variable which is not in the body may be in the domain.
+                const Formula f = imply(domain, body);
+                $$ = forall(intersect(vars, f.GetFreeVariables()), f);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0


From 550a74c1dcc56d78ddecb867aab17c094752e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 38/57] fix: names declared within a scope were still known
 after its pop

An assertion over a popped variable was accepted, over a variable which is not
a part of the problem.
---
 dreal/smt2/parser.yy | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 7008c26..4284b84 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -273,12 +273,20 @@ command_get_option:
 
 
 command_push:   '(' TK_PUSH INT ')' {
-                    driver.mutable_context().Push(convert_int64_to_int($3));
+                    const int n = convert_int64_to_int($3);
+                    driver.mutable_context().Push(n);
+                    for (int i = 0; i < n; ++i) {
+                        driver.PushScope();
+                    }
                 }
                 ;
 
 command_pop:    '(' TK_POP INT ')' {
-                    driver.mutable_context().Pop(convert_int64_to_int($3));
+                    const int n = convert_int64_to_int($3);
+                    driver.mutable_context().Pop(n);
+                    for (int i = 0; i < n; ++i) {
+                        driver.PopScope();
+                    }
                 }
                 ;
 
-- 
2.43.0


From 5a05dfb7bb9e40b180bbb0de7f448209497b6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 39/57] fix: get-value without a model aborted

---
 dreal/smt2/driver.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index b3928c6..06d4f50 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/smt2/driver.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -178,6 +179,9 @@ string ToString(const mpz_class& z) {
 }
 
 string ToRational(const double d) {
+  if (std::isinf(d)) {
+    return d > 0 ? "+oo" : "(- +oo)";
+  }
   const mpq_class r{d};
   if (r.get_den() == 1) {
     return fmt::format("{}", ToString(r.get_num()));
@@ -211,6 +215,11 @@ void Smt2Driver::GetModel() const {
 
 void Smt2Driver::GetValue(const vector<Term>& term_list) const {
   const Box& box{context_.get_model()};
+  if (box.empty()) {
+    cout << "(error \"model is not available\")\n";
+    cout.flush();
+    return;
+  }
   fmt::print("(\n");
   for (const auto& term : term_list) {
     string term_str;
-- 
2.43.0


From 33a595f59fa7a83d4dd0a5ad52eea08f8c4cfe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 40/57] fix: a script could not end in a comment

---
 dreal/smt2/scanner.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index 28734f8..b20bdda 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -87,7 +87,7 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /*** BEGIN - lexer rules ***/
 
-";".*[\n\r]+ {
+";".*[\n\r]* {
     smt2_yycolumn=1;
 }
 
-- 
2.43.0


From 41883c5bb05df4eefe48f1d38c8e47e4c82e15c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 41/57] fix: a file was solved up to a syntax error in what
 follows it

A file with a constraint section after the costs got an answer without it.
---
 dreal/dr/parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreal/dr/parser.yy b/dreal/dr/parser.yy
index 6df1b03..e545951 100644
--- a/dreal/dr/parser.yy
+++ b/dreal/dr/parser.yy
@@ -104,6 +104,7 @@
 script:         var_decl_sec
                 opt_ctr_decl_sec
 		opt_cost_decl_sec
+		END
 		{
                     driver.Solve();
 		}
-- 
2.43.0


From 17d206ad29c1774579a7c73bcb6fdeb3623bba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 42/57] fix: an empty range was noticed only for the first
 variable

---
 dreal/solver/context_impl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 0f74443..e39f2ed 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -374,12 +374,19 @@ void Context::Impl::SetInterval(const Variable& v, const double lb,
     sat_solver_.RetractLearnedClauses();
   }
   domains_.last()[v] = domain;
-  if (filtered_.empty()) {
+  if (filtered_.empty() && !domain.is_empty() && !box().empty()) {
     box()[v] = domain;
     return;
   }
   // Apply the assertions to the updated domains again.
   box() = domains_.last();
+  for (int i = 0; i < box().size(); ++i) {
+    if (box()[i].is_empty()) {
+      // An empty interval does not make the whole box empty by itself.
+      box().set_empty();
+      return;
+    }
+  }
   for (const Formula& f : filtered_) {
     if (is_false(f)) {
       box().set_empty();
-- 
2.43.0


From 74897dc51b076f355fb7f4d2a3f694ca1eb2020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 43/57] fix: minimising compared nothing when a variable was
 fixed

The strengthened bounds of a variable whose range is narrow have no solution, so
that the solution was compared with none.
---
 dreal/solver/context_impl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index e39f2ed..ba01539 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -296,6 +296,12 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
   }
 
   for (const Variable& x_i : x_vars) {
+    if (x_i.get_type() == Variable::Type::CONTINUOUS &&
+        box()[x_i].diam() <= 2 * config_.precision()) {
+      // No y_i satisfies the bounds of x_i strengthened by the precision. The
+      // solution is compared with the ones which have the same value of x_i.
+      continue;
+    }
     // We add postfix '_' to name y_i
     const Variable y_i{x_i.get_name() + "_", x_i.get_type()};
     quantified_variables.insert(y_i);
-- 
2.43.0


From 53e3884c5e6df7df5e82244e398f23de52995e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 44/57] fix: the workers of a pool could get thread IDs beyond
 its size

---
 .../ThreadPool/ThreadPool.h                   | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index d9b7cfa..d8bf280 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -20,12 +20,10 @@ class ThreadPool {
       -> std::future<typename std::result_of<F(Args...)>::type>;
   ~ThreadPool();
 
-  // Returns the thread ID.
+  // Returns the thread ID: 1, 2, ..., n in the n workers of a pool (so that it
+  // identifies a worker among those of its pool) and 0 in any other thread.
   // Added by Soonho Kong
-  static int get_thread_id() {
-    thread_local const int tid{global_thread_id_index_++};
-    return tid;
-  }
+  static int get_thread_id() { return thread_id(); }
 
  private:
   // need to keep track of threads so we can join them
@@ -40,16 +38,21 @@ class ThreadPool {
   bool stop;
 
   // Added by Soonho Kong
+  static int& thread_id() {
+    thread_local int tid{0};
+    return tid;
+  }
+
+  // Not used any more. Kept for the objects built with the previous version.
   static std::atomic<int> global_thread_id_index_;
 };
 
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
-  // To make sure that the thread that created this pool gets the ID 0.
-  get_thread_id();
-
   for (size_t i = 0; i < threads; ++i)
-    workers.emplace_back([this] {
+    workers.emplace_back([this, i] {
+      // 0 is reserved for the threads outside of the pool.
+      thread_id() = static_cast<int>(i) + 1;
       for (;;) {
         std::function<void()> task;
 
@@ -97,10 +100,6 @@ inline ThreadPool::~ThreadPool() {
   }
   condition.notify_all();
   for (std::thread& worker : workers) worker.join();
-
-  // Reset to 1 instead of 0 since 0 is preserved for the main thread.
-  // Added by Soonho Kong
-  global_thread_id_index_ = 1;
 }
 
 #endif
-- 
2.43.0


From a8585ce21dc69f2a8119e738f76e146d83989a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 45/57] fix: only the first thread to run the parallel search
 was attached to libcds

---
 dreal/solver/icp_parallel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/icp_parallel.cc b/dreal/solver/icp_parallel.cc
index 5963fe2..b73866a 100644
--- a/dreal/solver/icp_parallel.cc
+++ b/dreal/solver/icp_parallel.cc
@@ -188,8 +188,9 @@ bool IcpParallel::CheckSat(const Contractor& contractor,
   // -1 indicates that the process does not find a solution yet. i >= 0
   // indicates that the i-th worker already found a solution.
   atomic<int> found_delta_sat{-1};
-  static CdsInit cds_init{
-      true /* main thread is using lock-free containers. */};
+  static CdsInit cds_init{false /* The calling thread is attached below. */};
+  // Any thread may call this method and uses the lock-free containers then.
+  thread_local CdsScopeGuard cds_scope_guard(true);
   Stack<Box> global_stack;
 
   const int number_of_jobs = config().number_of_jobs();
-- 
2.43.0


From 157c473f4facd80a00dcaa3459f83a5158f4d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 46/57] fix: an exception in one worker of the parallel search
 left the others running

---
 dreal/solver/icp_parallel.cc | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/dreal/solver/icp_parallel.cc b/dreal/solver/icp_parallel.cc
index b73866a..5e04e55 100644
--- a/dreal/solver/icp_parallel.cc
+++ b/dreal/solver/icp_parallel.cc
@@ -16,6 +16,7 @@
 #include "dreal/solver/icp_parallel.h"
 
 #include <atomic>
+#include <exception>
 #include <tuple>
 #include <utility>
 
@@ -207,21 +208,40 @@ bool IcpParallel::CheckSat(const Contractor& contractor,
     status_vector_.push_back(*cs);
   }
 
+  // Runs a worker. If it throws, makes the others stop.
+  const auto run_worker = [&](const int i, const bool main_thread) {
+    try {
+      Worker(contractor, config(), formula_evaluators, i, main_thread,
+             &global_stack, &status_vector_[i], &found_delta_sat,
+             &number_of_boxes);
+    } catch (...) {
+      found_delta_sat = i;
+      throw;
+    }
+  };
+
   for (int i = 0; i < number_of_jobs - 1; ++i) {
     results_.push_back(
-        pool_.enqueue(Worker, contractor, config(), formula_evaluators, i,
-                      false /* not main thread */, &global_stack,
-                      &status_vector_[i], &found_delta_sat, &number_of_boxes));
+        pool_.enqueue(run_worker, i, false /* not main thread */));
   }
 
-  const int last_index{number_of_jobs - 1};
-  Worker(contractor, config(), formula_evaluators, last_index,
-         true /* main thread */, &global_stack, &status_vector_[last_index],
-         &found_delta_sat, &number_of_boxes);
+  std::exception_ptr exception;
+  try {
+    run_worker(number_of_jobs - 1, true /* main thread */);
+  } catch (...) {
+    exception = std::current_exception();
+  }
 
-  // barrier.
+  // barrier. Note that all of the workers use the local variables above.
   for (auto&& result : results_) {
-    result.get();
+    try {
+      result.get();
+    } catch (...) {
+      exception = std::current_exception();
+    }
+  }
+  if (exception) {
+    std::rethrow_exception(exception);
   }
 
   // Post-processing: Join all the contractor statuses.
-- 
2.43.0


From b6607e6813e09f69ab98529a7d1de4d01382d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 47/57] fix: changing the number of jobs of a context led to
 accesses out of bounds

---
 dreal/solver/theory_solver.cc | 23 ++++++++++++++++++-----
 dreal/solver/theory_solver.h  |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 224bf2c..48d8ff5 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -44,14 +44,20 @@ using std::numeric_limits;
 using std::set;
 using std::vector;
 
-TheorySolver::TheorySolver(const Config& config)
-    : config_{config}, icp_{nullptr} {
-  if (config_.number_of_jobs() > 1) {
-    icp_ = make_unique<IcpParallel>(config_);
+namespace {
+std::unique_ptr<Icp> MakeIcp(const Config& config) {
+  if (config.number_of_jobs() > 1) {
+    return make_unique<IcpParallel>(config);
   } else {
-    icp_ = make_unique<IcpSeq>(config_);
+    return make_unique<IcpSeq>(config);
   }
 }
+}  // namespace
+
+TheorySolver::TheorySolver(const Config& config)
+    : config_{config},
+      icp_{MakeIcp(config)},
+      cached_number_of_jobs_{config.number_of_jobs()} {}
 
 namespace {
 bool DefaultTerminationCondition(const Box::IntervalVector& old_iv,
@@ -292,6 +298,13 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
     formula_evaluator_cache_.clear();
     cached_precision_ = config_.precision();
   }
+  // And all of them for a number of jobs.
+  if (cached_number_of_jobs_ != config_.number_of_jobs()) {
+    contractor_cache_.clear();
+    formula_evaluator_cache_.clear();
+    icp_ = MakeIcp(config_);
+    cached_number_of_jobs_ = config_.number_of_jobs();
+  }
 
   // Icp Step
   const optional<Contractor> contractor{
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index ca9e6d2..1c8461c 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -66,6 +66,7 @@ class TheorySolver {
   // `contractor_cache_` is valid for the boxes over `cached_variables_`.
   std::vector<Variable> cached_variables_;
   double cached_precision_{0.0};
+  int cached_number_of_jobs_{};
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
-- 
2.43.0


From e2a36d3df1cacb9bae2d738ef4c5010d378c9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 48/57] fix: workers solving quantified constraints wrote to
 the same timers

---
 dreal/contractor/contractor_status.cc | 2 +-
 dreal/solver/icp_seq.cc               | 2 +-
 dreal/solver/sat_solver.cc            | 2 +-
 dreal/solver/theory_solver.cc         | 2 +-
 dreal/util/if_then_else_eliminator.cc | 2 +-
 dreal/util/predicate_abstractor.cc    | 2 +-
 dreal/util/tseitin_cnfizer.cc         | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dreal/contractor/contractor_status.cc b/dreal/contractor/contractor_status.cc
index 2d24f19..b986bf2 100644
--- a/dreal/contractor/contractor_status.cc
+++ b/dreal/contractor/contractor_status.cc
@@ -111,7 +111,7 @@ void ContractorStatus::AddUnsatWitness(const Variable& var) {
 
 set<Formula> GenerateExplanation(const Variables& unsat_witness,
                                  const set<Formula>& used_constraints) {
-  static ContractorStatusStat stat(DREAL_LOG_INFO_ENABLED);
+  thread_local ContractorStatusStat stat(DREAL_LOG_INFO_ENABLED);
   stat.increase_num_explanation_generation();
   TimerGuard timer_guard(&stat.timer_explanation_generation_, stat.enabled());
 
diff --git a/dreal/solver/icp_seq.cc b/dreal/solver/icp_seq.cc
index f32b16c..5b4e521 100644
--- a/dreal/solver/icp_seq.cc
+++ b/dreal/solver/icp_seq.cc
@@ -36,7 +36,7 @@ bool IcpSeq::CheckSat(const Contractor& contractor,
                       ContractorStatus* const cs) {
   // Use the stacking policy set by the configuration.
   stack_left_box_first_ = config().stack_left_box_first();
-  static IcpStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local IcpStat stat{DREAL_LOG_INFO_ENABLED};
   DREAL_LOG_DEBUG("IcpSeq::CheckSat()");
   // Stack of Box x BranchingPoint.
   vector<pair<Box, int>> stack;
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index 5b2b31a..9906b13 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -130,7 +130,7 @@ class SatSolverStat : public Stat {
 }  // namespace
 
 optional<SatSolver::Model> SatSolver::CheckSat() {
-  static SatSolverStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local SatSolverStat stat{DREAL_LOG_INFO_ENABLED};
   DREAL_LOG_DEBUG("SatSolver::CheckSat(#vars = {}, #clauses = {})",
                   picosat_variables(sat_),
                   picosat_added_original_clauses(sat_));
diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 48d8ff5..351e26b 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -264,7 +264,7 @@ vector<FormulaEvaluator> TheorySolver::BuildFormulaEvaluator(
 }
 
 bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
-  static TheorySolverStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local TheorySolverStat stat{DREAL_LOG_INFO_ENABLED};
   static DumpTheoryLiteralsHelper dump_theory_literals{
       config_.dump_theory_literals()};
   stat.increase_num_check_sat();
diff --git a/dreal/util/if_then_else_eliminator.cc b/dreal/util/if_then_else_eliminator.cc
index ccf7f9d..61f3962 100644
--- a/dreal/util/if_then_else_eliminator.cc
+++ b/dreal/util/if_then_else_eliminator.cc
@@ -63,7 +63,7 @@ class IfThenElseElimStat : public Stat {
 };
 
 Formula IfThenElseEliminator::Process(const Formula& f) {
-  static IfThenElseElimStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local IfThenElseElimStat stat{DREAL_LOG_INFO_ENABLED};
   TimerGuard timer_guard(&stat.timer_process_, stat.enabled());
   stat.increase_num_process();
 
diff --git a/dreal/util/predicate_abstractor.cc b/dreal/util/predicate_abstractor.cc
index 12049d0..a8f9ed1 100644
--- a/dreal/util/predicate_abstractor.cc
+++ b/dreal/util/predicate_abstractor.cc
@@ -69,7 +69,7 @@ void PredicateAbstractor::Add(const Variable& var, const Formula& f) {
 }
 
 Formula PredicateAbstractor::Convert(const Formula& f) {
-  static PredicateAbstractorStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local PredicateAbstractorStat stat{DREAL_LOG_INFO_ENABLED};
   TimerGuard timer_guard(&stat.timer_convert_, stat.enabled());
   stat.increase_num_convert();
   return Visit(f);
diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index a183cf8..103df9d 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -81,7 +81,7 @@ void CnfizeDisjunction(const Variable& b, const Formula& f,
 //    each subterm `f`, and keep the relation `b ⇔ f`.
 //  - Then it cnfizes each `b ⇔ f` and make a conjunction of them.
 vector<Formula> TseitinCnfizer::Convert(const Formula& f) {
-  static TseitinCnfizerStat stat{DREAL_LOG_INFO_ENABLED};
+  thread_local TseitinCnfizerStat stat{DREAL_LOG_INFO_ENABLED};
   TimerGuard timer_guard(&stat.timer_convert_, stat.enabled());
   stat.increase_num_convert();
   map_.clear();
-- 
2.43.0


From f9000c979d58d81d90114f77f3482bf49303a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 49/57] fix: workers setting up quantified constraints counted
 names without synchronisation

---
 dreal/solver/context_impl.cc          | 3 ++-
 dreal/util/if_then_else_eliminator.cc | 2 +-
 dreal/util/tseitin_cnfizer.cc         | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index ba01539..2b967dc 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -16,6 +16,7 @@
 #include "dreal/solver/context_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 #include <limits>
 #include <ostream>
@@ -329,7 +330,7 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
 
   Formula quantified{make_disjunction(set_of_negated_phi)};  // ∨ᵢ ¬ϕᵢ(y)
   Formula new_z_block;  // This will have (z₁ = f₁(x) ∧ ... ∧ zₙ = fₙ(x)).
-  static int counter{0};
+  static std::atomic<int> counter{0};
   for (const Expression& f_i : functions) {
     const Variable z_i{fmt::format("Z{}", counter++),
                        Variable::Type::CONTINUOUS};
diff --git a/dreal/util/if_then_else_eliminator.cc b/dreal/util/if_then_else_eliminator.cc
index 61f3962..15f9300 100644
--- a/dreal/util/if_then_else_eliminator.cc
+++ b/dreal/util/if_then_else_eliminator.cc
@@ -225,7 +225,7 @@ Expression IfThenElseEliminator::VisitMax(const Expression& e,
 
 Expression IfThenElseEliminator::VisitIfThenElse(const Expression& e,
                                                  const Formula& guard) {
-  static int counter{0};
+  static std::atomic<int> counter{0};
   const Variable new_var{"ITE" + to_string(counter++),
                          Variable::Type::CONTINUOUS};
   ite_variables_.insert(new_var);
diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 103df9d..912a206 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -149,7 +149,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   if (new_clauses.size() == 1) {
     return *(new_clauses.begin());
   } else {
-    static size_t id{0};
+    static std::atomic<size_t> id{0};
     const Variable bvar{string("forall") + to_string(id++),
                         Variable::Type::BOOLEAN};
     map_.emplace(bvar, make_conjunction(new_clauses));
@@ -160,7 +160,7 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
 Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
   // Introduce a new Boolean variable, `bvar` for `f` and record the
   // relation `bvar ⇔ f`.
-  static size_t id{0};
+  static std::atomic<size_t> id{0};
   const set<Formula> transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
@@ -171,7 +171,7 @@ Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
 }
 
 Formula TseitinCnfizer::VisitDisjunction(const Formula& f) {
-  static size_t id{0};
+  static std::atomic<size_t> id{0};
   const set<Formula>& transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
-- 
2.43.0


From 8319fc261c7360e4aa024d00ad15046c739985e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 50/57] fix: workers dumping theory literals wrote to the same
 list

---
 dreal/solver/theory_solver.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 351e26b..095973f 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <utility>
 
 #include <nlohmann/json.hpp>
@@ -132,14 +133,20 @@ class DumpTheoryLiteralsHelper {
     }
   }
 
-  /// Starts a new round of theory-solving.
-  void StartNewRound() { data_.push_back(nlohmann::json{}); }
-
-  /// Adds a literfal `f` to the data.
-  void AddLiteral(const Formula& f) { data_.back().push_back(f.to_string()); }
+  /// Adds a new round of theory-solving for @p literals. Several threads may
+  /// call it at the same time.
+  void AddRound(const vector<Formula>& literals) {
+    nlohmann::json round;
+    for (const Formula& f : literals) {
+      round.push_back(f.to_string());
+    }
+    const std::lock_guard<std::mutex> lock{mutex_};
+    data_.push_back(std::move(round));
+  }
 
  private:
   bool enabled_{false};
+  std::mutex mutex_;
   nlohmann::json data_;
 };
 
@@ -272,10 +279,7 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
                                    true /* start_timer */);
 
   if (config_.dump_theory_literals()) {
-    dump_theory_literals.StartNewRound();
-    for (const auto& f : assertions) {
-      dump_theory_literals.AddLiteral(f);
-    }
+    dump_theory_literals.AddRound(assertions);
   }
 
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
-- 
2.43.0


From b12742e533048fa248f37a11c273d3932951f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 51/57] fix: --verbose INFO turned the messages off, as only
 the check of its argument ignored case

---
 dreal/dreal_main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dreal/dreal_main.cc b/dreal/dreal_main.cc
index 93ce519..c1e645e 100644
--- a/dreal/dreal_main.cc
+++ b/dreal/dreal_main.cc
@@ -15,6 +15,8 @@
 */
 #include "dreal/dreal_main.h"
 
+#include <algorithm>
+#include <cctype>
 #include <csignal>
 #include <cstdlib>
 #include <iostream>
@@ -274,6 +276,9 @@ void MainProgram::ExtractOptions() {
   // Temporary variables used to set options.
   string verbosity;
   opt_.get("--verbose")->getString(verbosity);
+  // The validator of this option ignores case.
+  std::transform(verbosity.begin(), verbosity.end(), verbosity.begin(),
+                 [](const unsigned char c) { return std::tolower(c); });
   if (verbosity == "trace") {
     log()->set_level(spdlog::level::trace);
   } else if (verbosity == "debug") {
-- 
2.43.0


From c4c3e2c08760c5a8fa038d2f76a779a5f057f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 52/57] fix: the keys of set-option spelled :forall_polytope
 and :local_optimization were not recognised

---
 dreal/solver/context_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2b967dc..619d98f 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -443,11 +443,11 @@ void Context::Impl::SetOption(const string& key, const string& val) {
     return config_.mutable_use_polytope().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":forall-polytope" || key == "forall_polytope") {
+  if (key == ":forall-polytope" || key == ":forall_polytope") {
     return config_.mutable_use_polytope_in_forall().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":local-optimization" || key == "local_optimization") {
+  if (key == ":local-optimization" || key == ":local_optimization") {
     return config_.mutable_use_local_optimization().set_from_file(
         ParseBooleanOption(key, val));
   }
-- 
2.43.0


From 19b3f59a9c8c5bad9667cceb5e65379bc1f4ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 53/57] fix: get-option :precision reported a value that the
 command line overrides

---
 dreal/solver/context_impl.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 619d98f..4cd82f3 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -425,14 +425,15 @@ void Context::Impl::SetOption(const string& key, const double val) {
 
 optional<string> Context::Impl::GetOption(const string& key) const {
   DREAL_LOG_DEBUG("ContextImpl::GetOption({})");
+  // Handle :precision as a special case. Note that a value from a file does not
+  // override one from the command line.
+  if (key == ":precision") {
+    return fmt::format("{}", config_.precision());
+  }
   const auto it = option_.find(key);
   if (it != option_.end()) {
     return it->second;
   }
-  // Handle :precision as a special case.
-  if (key == ":precision") {
-    return fmt::format("{}", config_.precision());
-  }
   return nullopt;
 }
 
-- 
2.43.0


From 05eb232a10be97444563b0dd605bda707b3a4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 54/57] fix: a value beyond the range of int was wrong in the
 model of an integer variable

---
 dreal/solver/context_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 4cd82f3..32474a8 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -69,7 +69,7 @@ void Tighten(Box* box, const double delta) {
         } break;
         case Variable::Type::INTEGER: {
           const double mid{interval.mid()};
-          interval = static_cast<int>(mid);
+          interval = std::trunc(mid);
         } break;
       }
     }
-- 
2.43.0


From 1322b8b9119e6090e3cf0e59bb876cf1ebbff4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 55/57] fix: a box printed an integer beyond the range of int
 as another number

---
 dreal/util/box.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index e33c602..465bab6 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -21,6 +21,8 @@
 #include <limits>
 #include <utility>
 
+#include <fmt/format.h>
+
 #include "dreal/util/assert.h"
 #include "dreal/util/exception.h"
 #include "dreal/util/logging.h"
@@ -248,8 +250,9 @@ ostream& operator<<(ostream& os, const Box& box) {
         if (interval.is_empty()) {
           os << "[ empty ]";
         } else {
-          os << "[" << static_cast<int>(interval.lb()) << ", "
-             << static_cast<int>(interval.ub()) << "]";
+          // Adding zero turns -0.0 into 0.0.
+          os << fmt::format("[{:.0f}, {:.0f}]", std::trunc(interval.lb()) + 0.0,
+                            std::trunc(interval.ub()) + 0.0);
         }
         break;
       case Variable::Type::CONTINUOUS:
-- 
2.43.0


From 01f29a02c40ddc811f043eaf22473cba42dd99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 56/57] fix: a negated constraint was given to the local
 optimiser without its negation

---
 dreal/optimization/nlopt_optimizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/optimization/nlopt_optimizer.cc b/dreal/optimization/nlopt_optimizer.cc
index 89f328a..8aba7af 100644
--- a/dreal/optimization/nlopt_optimizer.cc
+++ b/dreal/optimization/nlopt_optimizer.cc
@@ -121,7 +121,8 @@ void NloptOptimizer::AddConstraint(const Formula& formula) {
   if (is_negation(formula)) {
     const Formula& negated_formula{get_operand(formula)};
     if (is_relational(negated_formula)) {
-      return AddRelationalConstraint(nnfizer_.Convert(negated_formula));
+      return AddRelationalConstraint(nnfizer_.Convert(
+          formula, true /* push the negation into the relation */));
     }
   }
   throw DREAL_RUNTIME_ERROR(
-- 
2.43.0


From 4bc17dede358bf3534b725e88dfcaf294d5215d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 57/57] fix: refining a counterexample started from values in
 the order of the box

---
 dreal/contractor/counterexample_refiner.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 62e8bfe..bbcf614 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -109,15 +109,16 @@ Box CounterexampleRefiner::Refine(Box box) {
 
   // 1. Set up init and env.
   Environment env;
-  int i = 0;
   for (const Variable& var : box.variables()) {
-    const double mid = box[var].mid();
-    if (forall_variables_.include(var)) {
-      init_[i++] = mid;  // forall variable
-    } else {
-      env.insert(var, mid);  // exist variable
+    if (!forall_variables_.include(var)) {
+      env.insert(var, box[var].mid());  // exist variable
     }
   }
+  // The optimizer uses the order of forall_vec_.
+  int i = 0;
+  for (const Variable& var : forall_vec_) {
+    init_[i++] = box[var].mid();  // forall variable
+  }
   // 2. call optimizer
   double optimal_value{0.0};
   try {
-- 
2.43.0

