From e79ec7f91e8546ed75df972aac090416977a1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 01/41] fix: e += e drops terms when e is an unshared addition

---
 .../dreal/symbolic/symbolic_expression.cc                     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..e571349 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,9 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // The in-place update must not be used for `e += e`, since it would move
+    // out the terms of the right-hand side.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
-- 
2.43.0


From 8dbbe569fba501fb78f4a55d98b25537ff770d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 02/41] fix: e *= e drops factors when e is an unshared
 multiplication

---
 .../dreal/symbolic/symbolic_expression.cc                    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index e571349..8d85f66 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -580,7 +580,10 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    //
+    // The in-place update must not be used for `e *= e`, since it would move
+    // out the factors of the right-hand side.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From d21e6d38ad4eb09e5c620945b51633cda31613d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 03/41] fix: pow(pow(x, y), c) reads a non-constant exponent as
 a constant

---
 .../dreal/symbolic/symbolic_expression.cc                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 8d85f66..36ee029 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,7 +729,8 @@ Expression pow(const Expression& e1, const Expression& e2) {
       return e1;
     }
   }
-  if (is_pow(e1) && is_constant(e2)) {
+  if (is_pow(e1) && is_constant(e2) &&
+      is_constant(get_second_argument(e1))) {
     // pow(base, exponent) ^ e2 => pow(base, exponent * e2)
     //
     // only if both of exponent and e2 are integers.
-- 
2.43.0


From 7ba8e7486319bbe2cfb75769a2f009416b3b01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 04/41] fix: a product does not merge (x^2)^0.5 into x

---
 .../dreal/symbolic/symbolic_expression_cell.cc                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..34e6470 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,8 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) &&
+          is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From edc28910ef819adacd6fc7f2dbb8c27523f6d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 05/41] fix: distinct real constants with one representative
 are ordered

---
 .../dreal/symbolic/symbolic_expression_cell.cc         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 34e6470..57be2ff 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -447,8 +447,14 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  if (lb_ != r.lb_) {
+    return lb_ < r.lb_;
+  }
+  if (ub_ != r.ub_) {
+    return ub_ < r.ub_;
+  }
+  return use_lb_as_representative_ < r.use_lb_as_representative_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From 312dfd5825d894f91505a42e6508ea17d1da4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 06/41] fix: Tseitin conversion aborts when an operand
 collapses to a literal

---
 dreal/util/tseitin_cnfizer.cc | 40 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..205d5cb 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -87,11 +87,12 @@ vector<Formula> TseitinCnfizer::Convert(const Formula& f) {
   map_.clear();
   vector<Formula> ret;
   const Formula head{Visit(f)};
-  if (map_.empty()) {
-    return {head};
+  if (!is_variable(head) || map_.count(get_variable(head)) == 0) {
+    // `f` is equivalent to a literal or a constant.
+    ret.push_back(head);
   }
   for (auto const& p : map_) {
-    if (get_variable(head).equal_to(p.first)) {
+    if (is_variable(head) && get_variable(head).equal_to(p.first)) {
       if (is_conjunction(p.second)) {
         const set<Formula>& conjuncts(get_operands(p.second));
         copy(conjuncts.begin(), conjuncts.end(), back_inserter(ret));
@@ -133,23 +134,25 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this, &quantified_variables](
+                                const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          return this->Visit(clause);
         }
       })};
 
   DREAL_ASSERT(!new_clauses.empty());
-  if (new_clauses.size() == 1) {
-    return *(new_clauses.begin());
+  const Formula conjunction{make_conjunction(new_clauses)};
+  if (!is_conjunction(conjunction)) {
+    return conjunction;
   } else {
     static size_t id{0};
     const Variable bvar{string("forall") + to_string(id++),
                         Variable::Type::BOOLEAN};
-    map_.emplace(bvar, make_conjunction(new_clauses));
+    map_.emplace(bvar, conjunction);
     return Formula{bvar};
   }
 }
@@ -161,9 +164,14 @@ Formula TseitinCnfizer::VisitConjunction(const Formula& f) {
   const set<Formula> transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
+  const Formula conjunction{make_conjunction(transformed_operands)};
+  if (!is_conjunction(conjunction)) {
+    // It collapsed into a literal or a constant, which needs no variable.
+    return conjunction;
+  }
   const Variable bvar{string("conj") + to_string(id++),
                       Variable::Type::BOOLEAN};
-  map_.emplace(bvar, make_conjunction(transformed_operands));
+  map_.emplace(bvar, conjunction);
   return Formula{bvar};
 }
 
@@ -172,9 +180,14 @@ Formula TseitinCnfizer::VisitDisjunction(const Formula& f) {
   const set<Formula>& transformed_operands{::dreal::map(
       get_operands(f),
       [this](const Formula& formula) { return this->Visit(formula); })};
+  const Formula disjunction{make_disjunction(transformed_operands)};
+  if (!is_disjunction(disjunction)) {
+    // It collapsed into a literal or a constant, which needs no variable.
+    return disjunction;
+  }
   const Variable bvar{string("disj") + to_string(id++),
                       Variable::Type::BOOLEAN};
-  map_.emplace(bvar, make_disjunction(transformed_operands));
+  map_.emplace(bvar, disjunction);
   return Formula{bvar};
 }
 
@@ -183,9 +196,12 @@ Formula TseitinCnfizer::VisitNegation(const Formula& f) {
   if (is_atomic(operand)) {
     return f;
   } else {
+    const Formula negation{!Visit(operand)};
+    if (!is_negation(negation)) {
+      return negation;
+    }
     const Variable bvar{"neg", Variable::Type::BOOLEAN};
-    const Formula transformed_operand{Visit(operand)};
-    map_.emplace(bvar, !transformed_operand);
+    map_.emplace(bvar, negation);
     return Formula{bvar};
   }
 }
-- 
2.43.0


From 7ba48e4bb93e7b62e4fbb82bd133d8261393c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:38 +0000
Subject: [PATCH 07/41] fix: the derivative of a product is not a number where
 a factor is zero

---
 .../dreal/symbolic/symbolic_expression_cell.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 57be2ff..fd934a3 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -905,20 +905,22 @@ Expression DifferentiatePow(const Expression& f, const Expression& g,
 
 Expression ExpressionMul::Differentiate(const Variable& x) const {
   // ∂/∂x (c   * f_1^g_1  * f_2^g_2        * ... * f_n^g_n
-  //= c * [expr * (∂/∂x f_1^g_1) / f_1^g_1 +
-  //       expr * (∂/∂x f_2^g_2) / f_2^g_2 +
-  //                      ...              +
-  //       expr * (∂/∂x f_n^g_n) / f_n^g_n]
+  //= c * [rest_1 * (∂/∂x f_1^g_1) +
+  //       rest_2 * (∂/∂x f_2^g_2) +
+  //                ...            +
+  //       rest_n * (∂/∂x f_n^g_n)]
   //
-  // where expr = (f_1^g_1 * f_2^g_2 * ... * f_n^g_n).
+  // where rest_i is the product of all the f_j^g_j but the i-th one. Note that
+  // it must not be written as a quotient by f_i^g_i, which can be zero.
   const map<Expression, Expression>& m{base_to_exponent_map_};
   Expression ret{Expression::Zero()};
-  const Expression expr{
-      ExpressionMulFactory{1.0, base_to_exponent_map_}.GetExpression()};
   for (const auto& term : m) {
     const Expression& base{term.first};
     const Expression& exponent{term.second};
-    ret += expr * DifferentiatePow(base, exponent, x) * pow(base, -exponent);
+    map<Expression, Expression> rest{m};
+    rest.erase(base);
+    ret += ExpressionMulFactory{1.0, std::move(rest)}.GetExpression() *
+           DifferentiatePow(base, exponent, x);
   }
   return constant_ * ret;
 }
-- 
2.43.0


From ff2e04895c9e3c115efea71cdae44fa244faca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 08/41] fix: delta-strengthening changes the conditions of
 if-then-else terms

---
 dreal/symbolic/symbolic.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..e191336 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -264,10 +264,10 @@ class DeltaStrengthenVisitor {
     return max(Visit(get_first_argument(e), delta),
                Visit(get_second_argument(e), delta));
   }
-  Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
-                        Visit(get_then_expression(e), delta),
-                        Visit(get_else_expression(e), delta));
+  Expression VisitIfThenElse(const Expression& e, const double) const {
+    // Changing the conditional formula would change the value of `e`, in which
+    // case the result is not stronger (weaker) than the input formula.
+    return e;
   }
   Expression VisitUninterpretedFunction(const Expression& e,
                                         const double) const {
-- 
2.43.0


From 76ec4cacca0cdd2da7c46362c4e5d8576f9a61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 09/41] fix: erasing a variable set from itself invalidated its
 iterator

Variables::erase(vars) walked vars while erasing from it, so v -= v and
v.erase(v) used an invalidated iterator.
---
 .../dreal/symbolic/symbolic_variables.cc                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..6bc2e53 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -39,6 +39,12 @@ string Variables::to_string() const {
 }
 
 Variables::size_type Variables::erase(const Variables& vars) {
+  if (this == &vars) {
+    // Erasing while iterating over the same set would invalidate the iterator.
+    const size_type n{vars_.size()};
+    vars_.clear();
+    return n;
+  }
   size_type num_of_erased_elements{0};
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
-- 
2.43.0


From e81a88635cfde3a7334e7b799425ec8b23b14026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 10/41] fix: fractional bounds on integer variables were kept
 in the box

FilterAssertion moved 'n >= 0.2' into the box of an integer n as it is and
dropped the assertion, so that {n >= 0.2, n <= 0.8} and n = 0.5 were
delta-sat with n = 0.  Round the bounds inwards.
---
 dreal/solver/filter_assertion.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..d574593 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -27,6 +27,12 @@ namespace {
 using std::nextafter;
 using std::numeric_limits;
 
+// Returns true if @p var only takes integer values.
+bool IsIntegral(const Variable& var) {
+  return var.get_type() == Variable::Type::INTEGER ||
+         var.get_type() == Variable::Type::BINARY;
+}
+
 // Constrains the @p box with ` box[var].lb() == v`.
 FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
                                               const double v, Box* const box) {
@@ -36,7 +42,7 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
   if (lb == ub && lb == v) {
     return FilterAssertionResult::FilteredWithoutChange;
   }
-  if (intv.contains(v)) {
+  if (intv.contains(v) && !(IsIntegral(var) && std::floor(v) != v)) {
     intv = v;
   } else {
     box->set_empty();
@@ -55,7 +61,9 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
   if (old_lb == new_lb && old_ub == new_ub) {
     return FilterAssertionResult::FilteredWithoutChange;
   }
-  intv &= Box::Interval{new_lb, new_ub};
+  intv &= IsIntegral(var)
+              ? Box::Interval{std::ceil(new_lb), std::floor(new_ub)}
+              : Box::Interval{new_lb, new_ub};
   if (intv.is_empty()) {
     box->set_empty();
   }
@@ -63,8 +71,9 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].lb() >= v`.
-FilterAssertionResult UpdateLowerBound(const Variable& var, const double new_lb,
+FilterAssertionResult UpdateLowerBound(const Variable& var, const double v,
                                        Box* const box) {
+  const double new_lb{IsIntegral(var) ? std::ceil(v) : v};
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
@@ -104,8 +113,9 @@ FilterAssertionResult UpdateStrictLowerBound(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].ub() <= v`.
-FilterAssertionResult UpdateUpperBound(const Variable& var, const double new_ub,
+FilterAssertionResult UpdateUpperBound(const Variable& var, const double v,
                                        Box* const box) {
+  const double new_ub{IsIntegral(var) ? std::floor(v) : v};
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
-- 
2.43.0


From c9018e8a3afef7a39a2cace81078bd43636bdca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 11/41] fix: x < v for v <= 0 raised the upper bound of x

The strict upper bound stepped from v towards numeric_limits::min(), a
positive number, instead of downwards.
---
 dreal/solver/filter_assertion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index d574593..bac525e 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -142,7 +142,7 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
+      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::lowest()),
                               box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
-- 
2.43.0


From b7042213760a6d94e04e8c6d1ea075ddaa609c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 12/41] fix: declaring a variable revived an empty box

After an assertion had emptied the box, DeclareVariable wrote the domain of
the new variable over the empty interval, and 'assert false; declare n;
check-sat' was delta-sat.
---
 dreal/solver/context_impl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..ac4b006 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -226,7 +226,12 @@ void Context::Impl::AddToBox(const Variable& v) {
         return v.equal_to(v_);
       }) == variables.end()) {
     // v is not in box.
+    const bool was_empty{box().empty()};
     box().Add(v);
+    if (was_empty) {
+      // Setting the domain of `v` should not revive an empty box.
+      box().set_empty();
+    }
   }
 }
 
@@ -355,6 +360,10 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
+  if (box().empty()) {
+    // The current assertions are unsatisfiable whatever the domain of `v` is.
+    return;
+  }
   box()[v] = Box::Interval{lb, ub};
 }
 
-- 
2.43.0


From 92c85ff2e62ed3d4c032a651982c407990570d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 13/41] fix: keep the line added to FilterAssertion within 80
 columns

---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index bac525e..c2d9c81 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -142,8 +142,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::lowest()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From daf11a0c338e61bab53241b52e48579f765c392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 14/41] fix: forall evaluator must not touch variables its
 context does not have

---
 dreal/solver/forall_formula_evaluator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..df5d13a 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,8 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  // Note that `context` only has the variables of `formula()`.
+  for (const Variable& v : formula().GetFreeVariables()) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,7 +109,7 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : formula().GetFreeVariables()) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
-- 
2.43.0


From 92ffebfdcc1a43f3b23af9be897108c97e20f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 15/41] fix: forget the clauses learned under an earlier box in
 forall contexts

---
 dreal/contractor/contractor_forall.h     | 5 ++++-
 dreal/solver/forall_formula_evaluator.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dreal/contractor/contractor_forall.h b/dreal/contractor/contractor_forall.h
index 683d8ee..4690b9b 100644
--- a/dreal/contractor/contractor_forall.h
+++ b/dreal/contractor/contractor_forall.h
@@ -198,7 +198,9 @@ class ContractorForall : public ContractorCell {
       }
 #endif
 
-      // 1. Find Counterexample.
+      // 1. Find Counterexample. What the context learns under the current box
+      // does not hold under another one: check it in its own scope.
+      context_for_counterexample_.Push(1);
       for (const Variable& exist_var : current_box.variables()) {
         context_for_counterexample_.SetInterval(exist_var,
                                                 current_box[exist_var].lb(),
@@ -208,6 +210,7 @@ class ContractorForall : public ContractorCell {
       config_for_counterexample.mutable_stack_left_box_first() =
           !config_for_counterexample.stack_left_box_first();
       optional<Box> counterexample_opt = context_for_counterexample_.CheckSat();
+      context_for_counterexample_.Pop(1);
       if (counterexample_opt) {
         Box& counterexample{*counterexample_opt};
         // 1.1. Counterexample found.
diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index df5d13a..3448e6b 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,11 +100,14 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  // Note that `context` only has the variables of `formula()`.
+  // Note that `context` only has the variables of `formula()`. What it learns
+  // under this box does not hold under the next one: check in its own scope.
+  context.Push(1);
   for (const Variable& v : formula().GetFreeVariables()) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
+  context.Pop(1);
   DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator({})", box);
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
-- 
2.43.0


From 6dad24b10b4dc70aef9d54ee7ba0fa2c7da4673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 16/41] fix: return only model variables whatever their number

---
 dreal/solver/context_impl.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index ac4b006..43115cc 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -428,10 +428,6 @@ void Context::Impl::SetOption(const string& key, const string& val) {
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-  if (static_cast<int>(model_variables_.size()) == box.size()) {
-    // Every variable is a model variable. Simply return the @p box.
-    return box;
-  }
   Box new_box;
   for (const Variable& v : box.variables()) {
     if (is_model_variable(v)) {
-- 
2.43.0


From 10a6cc401cf7a2e48b6939b0f6002b4c57b36855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 17/41] fix: cached contractors refer to the variables of
 another box

---
 dreal/solver/theory_solver.cc | 11 +++++++++++
 dreal/solver/theory_solver.h  |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..071890b 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,7 +15,9 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -37,6 +39,8 @@
 namespace dreal {
 
 using std::cout;
+using std::equal;
+using std::equal_to;
 using std::make_unique;
 using std::numeric_limits;
 using std::set;
@@ -146,6 +150,13 @@ optional<Contractor> TheorySolver::BuildContractor(
   }
   DREAL_LOG_TRACE("TheorySolver::BuildContractor: Filtering Assertions\n{}",
                   box);
+  // Cached contractors are useless if they were built with other variables.
+  if (!equal(contractor_cache_variables_.begin(),
+             contractor_cache_variables_.end(), box.variables().begin(),
+             box.variables().end(), equal_to<Variable>{})) {
+    contractor_cache_.clear();
+    contractor_cache_variables_ = box.variables();
+  }
   vector<Contractor> ctcs;
   Box old_box;
   for (const Formula& f : assertions) {
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..b64a158 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -62,6 +62,9 @@ class TheorySolver {
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
+  // Contractors refer to variables by their indices in a box. This keeps the
+  // variables of the box with which the cached contractors were built.
+  std::vector<Variable> contractor_cache_variables_;
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
-- 
2.43.0


From 6770511f08d65d2a80982394be7ebb19a42e1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 18/41] fix: picosat aborts after eleven pops of a decided
 problem

---
 dreal/solver/sat_solver.cc | 56 ++++++++++++++++++++++++--------------
 dreal/solver/sat_solver.h  | 22 +++++++++++----
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..b6c31d2 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -30,18 +30,23 @@ using std::cout;
 using std::set;
 using std::vector;
 
-SatSolver::SatSolver(const Config& config) : sat_{picosat_init()} {
+SatSolver::SatSolver(const Config& config)
+    : random_seed_{config.random_seed()},
+      sat_default_phase_{config.sat_default_phase()},
+      sat_{MakePicoSat()} {}
+
+PicoSAT* SatSolver::MakePicoSat() const {
+  PicoSAT* const sat{picosat_init()};
   // Enable partial checks via picosat_deref_partial. See the call-site in
   // SatSolver::CheckSat().
-  picosat_save_original_clauses(sat_);
-  if (config.random_seed() != 0) {
-    picosat_set_seed(sat_, config.random_seed());
-    DREAL_LOG_DEBUG("SatSolver::Set Random Seed {}", config.random_seed());
+  picosat_save_original_clauses(sat);
+  if (random_seed_ != 0) {
+    picosat_set_seed(sat, random_seed_);
+    DREAL_LOG_DEBUG("SatSolver::Set Random Seed {}", random_seed_);
   }
-  picosat_set_global_default_phase(
-      sat_, static_cast<int>(config.sat_default_phase()));
-  DREAL_LOG_DEBUG("SatSolver::Set Default Phase {}",
-                  config.sat_default_phase());
+  picosat_set_global_default_phase(sat, static_cast<int>(sat_default_phase_));
+  DREAL_LOG_DEBUG("SatSolver::Set Default Phase {}", sat_default_phase_);
+  return sat;
 }
 
 SatSolver::SatSolver(const Config& config, const vector<Formula>& clauses)
@@ -74,7 +79,7 @@ void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddLiteral(!predicate_abstractor_.Convert(f));
   }
-  picosat_add(sat_, 0);
+  AddToPicoSat(0);
 }
 
 void SatSolver::AddClauses(const vector<Formula>& formulas) {
@@ -134,16 +139,14 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
     // SAT Case.
     const auto& var_to_formula_map = predicate_abstractor_.var_to_formula_map();
     for (int i = 1; i <= picosat_variables(sat_); ++i) {
-      const int model_i{has_picosat_pop_used_ ? picosat_deref(sat_, i)
-                                              : picosat_deref_partial(sat_, i)};
+      const int model_i{picosat_deref_partial(sat_, i)};
       if (model_i == 0) {
         continue;
       }
       const auto it_var = to_sym_var_.find(i);
       if (it_var == to_sym_var_.end()) {
         // There is no symbolic::Variable corresponding to this
-        // picosat variable (int). This could be because of
-        // picosat_push/pop.
+        // picosat variable (int). This could be because of Push/Pop.
         continue;
       }
       const Variable& var{it_var->second};
@@ -183,13 +186,21 @@ void SatSolver::Pop() {
   tseitin_variables_.pop();
   to_sym_var_.pop();
   to_sat_var_.pop();
-  picosat_pop(sat_);
-  has_picosat_pop_used_ = true;
+  clauses_.resize(scopes_.back());
+  scopes_.pop_back();
+  // Start again with the clauses which are left.
+  const int num_variables{picosat_variables(sat_)};
+  picosat_reset(sat_);
+  sat_ = MakePicoSat();
+  picosat_adjust(sat_, num_variables);
+  for (const int literal : clauses_) {
+    picosat_add(sat_, literal);
+  }
 }
 
 void SatSolver::Push() {
   DREAL_LOG_DEBUG("SatSolver::Push()");
-  picosat_push(sat_);
+  scopes_.push_back(clauses_.size());
   to_sat_var_.push();
   to_sym_var_.push();
   tseitin_variables_.push();
@@ -203,17 +214,22 @@ void SatSolver::AddLiteral(const Formula& f) {
     const Variable& var{get_variable(f)};
     DREAL_ASSERT(var.get_type() == Variable::Type::BOOLEAN);
     // Add l = b
-    picosat_add(sat_, to_sat_var_[var.get_id()]);
+    AddToPicoSat(to_sat_var_[var.get_id()]);
   } else {
     // f = ¬b
     DREAL_ASSERT(is_negation(f) && is_variable(get_operand(f)));
     const Variable& var{get_variable(get_operand(f))};
     DREAL_ASSERT(var.get_type() == Variable::Type::BOOLEAN);
     // Add l = ¬b
-    picosat_add(sat_, -to_sat_var_[var.get_id()]);
+    AddToPicoSat(-to_sat_var_[var.get_id()]);
   }
 }
 
+void SatSolver::AddToPicoSat(const int literal) {
+  clauses_.push_back(literal);
+  picosat_add(sat_, literal);
+}
+
 void SatSolver::DoAddClause(const Formula& f) {
   if (is_disjunction(f)) {
     // f = l₁ ∨ ... ∨ lₙ
@@ -224,7 +240,7 @@ void SatSolver::DoAddClause(const Formula& f) {
     // f = b or f = ¬b.
     AddLiteral(f);
   }
-  picosat_add(sat_, 0);
+  AddToPicoSat(0);
 }
 
 void SatSolver::MakeSatVar(const Variable& var) {
diff --git a/dreal/solver/sat_solver.h b/dreal/solver/sat_solver.h
index 71163b4..c1c2af4 100644
--- a/dreal/solver/sat_solver.h
+++ b/dreal/solver/sat_solver.h
@@ -111,13 +111,21 @@ class SatSolver {
   // variable.
   void AddLiteral(const Formula& f);
 
+  // Makes a PicoSat solver with the options of @p config_.
+  PicoSAT* MakePicoSat() const;
+
+  // Adds @p literal, or the end of a clause if it is zero, to the sat solver.
+  void AddToPicoSat(int literal);
+
   // Add a clause @p f to sat solver.
   void DoAddClause(const Formula& f);
 
   // Member variables
   // ----------------
+  const uint32_t random_seed_{};
+  const Config::SatDefaultPhase sat_default_phase_{};
   // Pointer to the PicoSat solver.
-  PicoSAT* const sat_{};
+  PicoSAT* sat_{};
   TseitinCnfizer cnfizer_;
   PredicateAbstractor predicate_abstractor_;
 
@@ -131,12 +139,14 @@ class SatSolver {
   /// transformations.
   ScopedUnorderedSet<Variable::Id> tseitin_variables_;
 
-  /// @note We found an issue when picosat_deref_partial is used with
-  /// picosat_pop. When this variable is true, we use `picosat_deref`
-  /// instead.
+  /// Literals of the clauses added so far. Every clause ends with zero.
+  std::vector<int> clauses_;
+
+  /// Sizes of `clauses_` at the calls of Push() which are not popped yet.
   ///
-  /// TODO(soonho): Remove this hack when it's not needed.
-  bool has_picosat_pop_used_{false};
+  /// @note We do not use picosat_push/picosat_pop. After eleven pops, PicoSat
+  /// aborts if its clauses are contradictory, or satisfied, at the top level.
+  std::vector<std::size_t> scopes_;
 };
 
 }  // namespace dreal
-- 
2.43.0


From a7d7a5a2890a408524d004a248dcca29d146d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 19/41] fix: a clause collapsing into true or false aborts the
 SAT solver

---
 dreal/solver/sat_solver.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index b6c31d2..f3f29c7 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -231,7 +231,13 @@ void SatSolver::AddToPicoSat(const int literal) {
 }
 
 void SatSolver::DoAddClause(const Formula& f) {
-  if (is_disjunction(f)) {
+  if (is_true(f)) {
+    // For example, a universal quantification can be CNFized into true.
+    return;
+  }
+  if (is_false(f)) {
+    // Nothing to add: it is the empty clause.
+  } else if (is_disjunction(f)) {
     // f = l₁ ∨ ... ∨ lₙ
     for (const Formula& l : get_operands(f)) {
       AddLiteral(l);
-- 
2.43.0


From e2941ef3158d96e49c169f42f92dc4f06e3aa936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 20/41] fix: ICP bisected integer variables at fractional
 bounds

---
 dreal/solver/theory_solver.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 071890b..553c924 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -213,7 +213,8 @@ optional<Contractor> TheorySolver::BuildContractor(
     }
   }
   // Add integer contractor.
-  ctcs.push_back(make_contractor_integer(box, config_));
+  const Contractor integer{make_contractor_integer(box, config_)};
+  ctcs.push_back(integer);
 
   if (config_.use_polytope()) {
     // Add polytope contractor.
@@ -227,12 +228,18 @@ optional<Contractor> TheorySolver::BuildContractor(
       DREAL_LOG_TRACE("TheorySolver::BuildContractor: CTCS = empty");
     }
   }
-  if (config_.use_worklist_fixpoint()) {
-    return make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
-                                             config_);
-  } else {
-    return make_contractor_fixpoint(DefaultTerminationCondition, ctcs, config_);
+  const Contractor fixpoint{
+      config_.use_worklist_fixpoint()
+          ? make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
+                                              config_)
+          : make_contractor_fixpoint(DefaultTerminationCondition, ctcs,
+                                     config_)};
+  if (integer.kind() == Contractor::Kind::ID) {
+    return fixpoint;
   }
+  // The fixpoint can end with another contractor. A box to branch on should
+  // have no fractional bound of an integer variable.
+  return make_contractor_seq({fixpoint, integer}, config_);
 }
 
 vector<FormulaEvaluator> TheorySolver::BuildFormulaEvaluator(
-- 
2.43.0


From 5ddeaba262c06a7cdf2414bea098ee9fa644768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 21/41] fix: a model keeps the intervals of the box it comes
 from

---
 dreal/solver/context_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 43115cc..ba3c5f7 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -431,7 +431,8 @@ Box Context::Impl::ExtractModel(const Box& box) const {
   Box new_box;
   for (const Variable& v : box.variables()) {
     if (is_model_variable(v)) {
-      new_box.Add(v, box[v].lb(), box[v].ub());
+      new_box.Add(v);
+      new_box[v] = box[v];
     }
   }
   return new_box;
-- 
2.43.0


From 1e0fa486cecfb3a653a6c8658b9cfeb179298bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 22/41] fix: the worklist fixpoint never checked its
 termination condition

---
 dreal/contractor/contractor_worklist_fixpoint.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dreal/contractor/contractor_worklist_fixpoint.cc b/dreal/contractor/contractor_worklist_fixpoint.cc
index bd627a2..3c4be7a 100644
--- a/dreal/contractor/contractor_worklist_fixpoint.cc
+++ b/dreal/contractor/contractor_worklist_fixpoint.cc
@@ -136,7 +136,7 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
   do {
     DynamicBitset::size_type ctc_idx = worklist.find_first();
     old_iv = iv;
-    while (true) {
+    while (ctc_idx != DynamicBitset::npos) {
       worklist.set(ctc_idx, false);
       cs->mutable_output().reset();
       contractors_[ctc_idx].Prune(cs);
@@ -148,9 +148,6 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
         return;
       }
       ctc_idx = worklist.find_next(ctc_idx);
-      if (ctc_idx == DynamicBitset::npos) {
-        ctc_idx = worklist.find_first();
-      }
     }
   } while (!term_cond_(old_iv, iv));
 }
-- 
2.43.0


From 9bd5c95e32a8879eb3b2cb121baf07c9f5b02ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 23/41] fix: let did not see through parameters and quantified
 variables

---
 dreal/smt2/driver.cc | 38 ++++++++++++++++++++++++++++++++++++++
 dreal/smt2/driver.h  | 22 ++++++++++++++++++++++
 dreal/smt2/parser.yy | 21 +++++----------------
 3 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 798d3aa..2a6806a 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -308,6 +308,44 @@ Variable Smt2Driver::DeclareLocalVariable(const string& name, const Sort sort) {
   return v;
 }
 
+void Smt2Driver::MarkBoundVariable(const Variable& v) {
+  bound_variables_.insert(v);
+}
+
+void Smt2Driver::DefineLocal(const string& name, const Term& term) {
+  const bool is_formula{term.type() == Term::Type::FORMULA};
+  const Sort sort{is_formula ? Sort::Bool : Sort::Real};
+  const Variables& vars{is_formula ? term.formula().GetFreeVariables()
+                                   : term.expression().GetVariables()};
+  if (HaveIntersection(vars, bound_variables_)) {
+    // There is no single value to which a constraint could tie the name.
+    const Variable v{ParseVariableSort(MakeUniqueName(name), sort)};
+    scope_.insert(name, v);
+    local_terms_.emplace(v.get_id(), term);
+    return;
+  }
+  const Variable v{DeclareLocalVariable(name, sort)};
+  if (is_formula) {
+    const Formula fv{v};
+    const Formula& ft{term.formula()};
+    context_.Assert((fv && ft) || (!fv && !ft));
+  } else {
+    context_.Assert(Expression{v} == term.expression());
+  }
+}
+
+Term Smt2Driver::LookupTerm(const string& name) {
+  const Variable& v{lookup_variable(name)};
+  const auto it = local_terms_.find(v.get_id());
+  if (it != local_terms_.end()) {
+    return it->second;
+  }
+  if (v.get_type() == Variable::Type::BOOLEAN) {
+    return Term{Formula{v}};
+  }
+  return Term{Expression{v}};
+}
+
 const Variable& Smt2Driver::lookup_variable(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..dc162d0 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -15,6 +15,7 @@
 */
 #include <istream>
 #include <string>
+#include <unordered_map>
 #include <vector>
 
 #include "dreal/smt2/location.hh"
@@ -22,6 +23,7 @@
 #include "dreal/smt2/sort.h"
 #include "dreal/smt2/term.h"
 #include "dreal/solver/context.h"
+#include "dreal/symbolic/symbolic.h"
 #include "dreal/util/scoped_unordered_map.h"
 
 namespace dreal {
@@ -106,6 +108,15 @@ class Smt2Driver {
   /// cannot occur in an SMT-LIBv2 file.
   Variable DeclareLocalVariable(const std::string& name, Sort sort);
 
+  /// Marks @p v as a variable which only stands for other terms, that is, a
+  /// parameter of a function definition or a quantified variable.
+  void MarkBoundVariable(const Variable& v);
+
+  /// Binds @p name to @p term. If @p term depends on a bound variable (see
+  /// `MarkBoundVariable`), @p name stands for @p term itself. Otherwise, it is
+  /// a new local variable which is asserted to be equal to @p term.
+  void DefineLocal(const std::string& name, const Term& term);
+
   /// Handles define-fun.
   void DefineFun(const std::string& name,
                  const std::vector<Variable>& parameters, Sort return_type,
@@ -127,6 +138,11 @@ class Smt2Driver {
   /// @throws if no variable is associated with @p name.
   const Variable& lookup_variable(const std::string& name);
 
+  /// Returns the term associated with a name @p name.
+  ///
+  /// @throws if nothing is associated with @p name.
+  Term LookupTerm(const std::string& name);
+
   void PushScope() {
     scope_.push();
     function_definition_map_.push();
@@ -177,6 +193,12 @@ class Smt2Driver {
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
 
+  /// Parameters of function definitions and quantified variables.
+  Variables bound_variables_;
+
+  /// Maps a name's variable to the term for which it stands (`DefineLocal`).
+  std::unordered_map<Variable::Id, Term> local_terms_;
+
   /// Sequential value concatenated to names to make them unique.
   int64_t nextUniqueId_{};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..0f0e79b 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -390,12 +390,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
         |       INT { $$ = convert_int64_to_double($1); }
         |       SYMBOL {
             try {
-                const Variable& var = driver.lookup_variable($1);
-                if (var.get_type() == Variable::Type::BOOLEAN) {
-                    $$ = Formula(var);
-                } else {
-                    $$ = Expression(var);
-                }
+                $$ = driver.LookupTerm($1);
             } catch (std::runtime_error& e) {
                 std::cerr << @1 << " : " << e.what() << std::endl;
                 YYABORT;
@@ -492,16 +487,7 @@ let_binding_list: '(' var_binding_list ')' {
             for (auto& binding : $2) {
                 const std::string& name{ binding.first };
                 const Term& term{ binding.second };
-                const bool is_formula = term.type() == Term::Type::FORMULA;
-                const Sort sort = is_formula ? Sort::Bool : Sort::Real;
-                const Variable v{ driver.DeclareLocalVariable(name, sort) };
-                if (is_formula) {
-                    const Formula fv{v};
-                    const Formula& ft{ term.formula() };
-                    driver.mutable_context().Assert((fv && ft) || (!fv && !ft));
-                } else {
-                    driver.mutable_context().Assert(Expression{v} == term.expression());
-                }
+                driver.DefineLocal(name, term);
             }
         }
         ;
@@ -518,6 +504,7 @@ exit_scope: /* */ {
 
 name_sort: '(' SYMBOL sort ')' {
             $$ = Variable{driver.DeclareLocalVariable($2, $3)};
+            driver.MarkBoundVariable($$);
         }
         ;
 
@@ -548,11 +535,13 @@ variable_sort_list: /* empty list */ { $$ = std::pair<Variables, Formula>(Variab
 
 variable_sort: '(' SYMBOL sort ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.MarkBoundVariable(v);
             const double inf = std::numeric_limits<double>::infinity();
             $$ = std::tuple<Variable, double, double>(v, -inf, inf);
         }
         |       '(' SYMBOL sort '[' term ',' term ']' ')' {
             const Variable v = driver.RegisterVariable($2, $3);
+            driver.MarkBoundVariable(v);
             const double lb = $5.expression().Evaluate();
             const double ub = $7.expression().Evaluate();
             $$ = std::tuple<Variable, double, double>(v, lb, ub);
-- 
2.43.0


From 6dc34b9b9d6da5bd55f129f12e317c81e496060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 24/41] fix: a decimal with a plus sign could not be converted

---
 dreal/util/string_to_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..20d677d 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -29,7 +29,7 @@ Box::Interval StringToInterval(const string& s) {
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
   } else {
-    lb = -stod("-" + s);
+    lb = -stod("-" + (s[0] == '+' ? s.substr(1) : s));
   }
   return Box::Interval{lb, ub};
 }
-- 
2.43.0


From 440facf1892f516a3e221d655ed115200b45f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 25/41] fix: a comment had to end with a newline

---
 dreal/dr/scanner.ll   | 2 +-
 dreal/smt2/scanner.ll | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/dr/scanner.ll b/dreal/dr/scanner.ll
index 4655ca0..74199a3 100644
--- a/dreal/dr/scanner.ll
+++ b/dreal/dr/scanner.ll
@@ -73,7 +73,7 @@ dr_yycolumn += yyleng;
 
  /*** BEGIN - lexer rules ***/
 
-"#".*[\n\r]+ {
+"#"[^\n\r]*[\n\r]* {
     dr_yycolumn=1;
 }
 
diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index 28734f8..b722f90 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -87,7 +87,7 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /*** BEGIN - lexer rules ***/
 
-";".*[\n\r]+ {
+";"[^\n\r]*[\n\r]* {
     smt2_yycolumn=1;
 }
 
-- 
2.43.0


From 584ecea1c740d7e7f01ffb539a473bb83bd70d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 26/41] fix: an integer could not be the value of an option or
 attribute

---
 dreal/smt2/parser.yy | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 0f0e79b..6b84a73 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -232,6 +232,11 @@ command_set_info:
                         .mutable_context()
                         .SetInfo($3, std::stod($4));
                 }
+        |       '(' TK_SET_INFO KEYWORD INT ')' {
+                    driver
+                        .mutable_context()
+                        .SetInfo($3, convert_int64_to_double($4));
+                }
                 ;
 command_set_logic:
                 '(' TK_SET_LOGIC SYMBOL ')' {
@@ -251,6 +256,11 @@ command_set_option:
                         .mutable_context()
                         .SetOption($3, std::stod($4));
                 }
+        |       '('TK_SET_OPTION KEYWORD INT ')' {
+                    driver
+                        .mutable_context()
+                        .SetOption($3, convert_int64_to_double($4));
+                }
         |       '('TK_SET_OPTION KEYWORD TK_TRUE ')' {
                     driver
                         .mutable_context()
-- 
2.43.0


From 101a9b396cf1f3206e22474ef48da19fcf383269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 27/41] fix: get-value answered for variables the model does
 not have

---
 dreal/smt2/driver.cc | 19 +++++++++++++++++--
 dreal/smt2/driver.h  | 13 +++++++++++--
 dreal/smt2/parser.yy | 14 ++++++++++++--
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 2a6806a..4ccb01b 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -211,6 +211,20 @@ void Smt2Driver::GetModel() const {
 
 void Smt2Driver::GetValue(const vector<Term>& term_list) const {
   const Box& box{context_.get_model()};
+  if (box.size() == 0 || box.empty()) {
+    cout << "(error \"model is not available\")\n";
+    cout.flush();
+    return;
+  }
+  for (const auto& term : term_list) {
+    for (const Variable& v : term.type() == Term::Type::FORMULA
+                                 ? term.formula().GetFreeVariables()
+                                 : term.expression().GetVariables()) {
+      if (!box.has_variable(v)) {
+        throw DREAL_RUNTIME_ERROR("{} has no value in the model.", v);
+      }
+    }
+  }
   fmt::print("(\n");
   for (const auto& term : term_list) {
     string term_str;
@@ -317,8 +331,9 @@ void Smt2Driver::DefineLocal(const string& name, const Term& term) {
   const Sort sort{is_formula ? Sort::Bool : Sort::Real};
   const Variables& vars{is_formula ? term.formula().GetFreeVariables()
                                    : term.expression().GetVariables()};
-  if (HaveIntersection(vars, bound_variables_)) {
-    // There is no single value to which a constraint could tie the name.
+  if (in_query_ || HaveIntersection(vars, bound_variables_)) {
+    // A constraint cannot tie the name to a value: there is no single one, or
+    // it is too late for the model.
     const Variable v{ParseVariableSort(MakeUniqueName(name), sort)};
     scope_.insert(name, v);
     local_terms_.emplace(v.get_id(), term);
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index dc162d0..c8de386 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -113,10 +113,16 @@ class Smt2Driver {
   void MarkBoundVariable(const Variable& v);
 
   /// Binds @p name to @p term. If @p term depends on a bound variable (see
-  /// `MarkBoundVariable`), @p name stands for @p term itself. Otherwise, it is
-  /// a new local variable which is asserted to be equal to @p term.
+  /// `MarkBoundVariable`) or is part of a query, @p name stands for @p term
+  /// itself. Otherwise, it is a new local variable which is asserted to be
+  /// equal to @p term.
   void DefineLocal(const std::string& name, const Term& term);
 
+  /// Between `EnterQuery` and `ExitQuery`, terms only ask for values: reading
+  /// them must not add variables and constraints to the context.
+  void EnterQuery() { in_query_ = true; }
+  void ExitQuery() { in_query_ = false; }
+
   /// Handles define-fun.
   void DefineFun(const std::string& name,
                  const std::vector<Variable>& parameters, Sort return_type,
@@ -196,6 +202,9 @@ class Smt2Driver {
   /// Parameters of function definitions and quantified variables.
   Variables bound_variables_;
 
+  /// True if the terms of a get-value command are being read.
+  bool in_query_{false};
+
   /// Maps a name's variable to the term for which it stands (`DefineLocal`).
   std::unordered_map<Variable::Id, Term> local_terms_;
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 6b84a73..212cd98 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -201,8 +201,8 @@ command_get_model:
                 ;
 
 command_get_value:
-                '(' TK_GET_VALUE '(' term_list ')' ')' {
-                    driver.GetValue($4);
+                '(' TK_GET_VALUE enter_query '(' term_list exit_query ')' ')' {
+                    driver.GetValue($5);
                 }
                 ;
 
@@ -502,6 +502,16 @@ let_binding_list: '(' var_binding_list ')' {
         }
         ;
 
+enter_query: /* */ {
+            driver.EnterQuery();
+        }
+        ;
+
+exit_query: /* */ {
+            driver.ExitQuery();
+        }
+        ;
+
 enter_scope: /* */ {
             driver.PushScope();
         }
-- 
2.43.0


From c562b4ca75f7f733cb9df6cba196b84474a59096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 28/41] fix: forall over Int lost the ends of the domain

---
 dreal/smt2/parser.yy | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 212cd98..2e31ffb 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -540,8 +540,14 @@ name_sort_list: /* empty list */ { $$ = std::vector<Variable>{}; }
 variable_sort_list: /* empty list */ { $$ = std::pair<Variables, Formula>(Variables{}, Formula::True()); }
         |       variable_sort variable_sort_list {
             const Variable& v = std::get<0>($1);
-            const double lb = std::get<1>($1);
-            const double ub = std::get<2>($1);
+            double lb = std::get<1>($1);
+            double ub = std::get<2>($1);
+            if (v.get_type() == Variable::Type::INTEGER) {
+                // The same integers, but none of them is lost when the domain
+                // is strengthened by a delta.
+                lb = std::ceil(lb) - 0.5;
+                ub = std::floor(ub) + 0.5;
+            }
             $2.first.insert(v);
             if (std::isfinite(lb)) {
                 $2.second = $2.second && (lb <= v);
-- 
2.43.0


From 4f1794c4e27fe5d9e81e054b138abbc0f872777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 29/41] fix: a let in a function is part of its body

---
 dreal/smt2/driver.cc | 10 +++++++++-
 dreal/smt2/driver.h  | 12 +++++++++---
 dreal/smt2/parser.yy |  3 +--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 4ccb01b..a152365 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -293,6 +293,7 @@ void Smt2Driver::DeclareVariable(const string& name, const Sort sort,
 void Smt2Driver::DefineFun(const string& name,
                            const vector<Variable>& parameters, Sort return_type,
                            const Term& body) {
+  in_function_ = false;
   FunctionDefinition func{parameters, return_type, body};
   function_definition_map_.insert(name, func);
 }
@@ -326,12 +327,19 @@ void Smt2Driver::MarkBoundVariable(const Variable& v) {
   bound_variables_.insert(v);
 }
 
+Variable Smt2Driver::DeclareParameter(const string& name, const Sort sort) {
+  const Variable v{DeclareLocalVariable(name, sort)};
+  MarkBoundVariable(v);
+  in_function_ = true;
+  return v;
+}
+
 void Smt2Driver::DefineLocal(const string& name, const Term& term) {
   const bool is_formula{term.type() == Term::Type::FORMULA};
   const Sort sort{is_formula ? Sort::Bool : Sort::Real};
   const Variables& vars{is_formula ? term.formula().GetFreeVariables()
                                    : term.expression().GetVariables()};
-  if (in_query_ || HaveIntersection(vars, bound_variables_)) {
+  if (in_query_ || in_function_ || HaveIntersection(vars, bound_variables_)) {
     // A constraint cannot tie the name to a value: there is no single one, or
     // it is too late for the model.
     const Variable v{ParseVariableSort(MakeUniqueName(name), sort)};
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index c8de386..d99e536 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -112,10 +112,13 @@ class Smt2Driver {
   /// parameter of a function definition or a quantified variable.
   void MarkBoundVariable(const Variable& v);
 
+  /// Declares a parameter of the function whose definition is being read.
+  Variable DeclareParameter(const std::string& name, Sort sort);
+
   /// Binds @p name to @p term. If @p term depends on a bound variable (see
-  /// `MarkBoundVariable`) or is part of a query, @p name stands for @p term
-  /// itself. Otherwise, it is a new local variable which is asserted to be
-  /// equal to @p term.
+  /// `MarkBoundVariable`), or is part of a function's body or a query, @p name
+  /// stands for @p term itself. Otherwise, it is a new local variable which is
+  /// asserted to be equal to @p term.
   void DefineLocal(const std::string& name, const Term& term);
 
   /// Between `EnterQuery` and `ExitQuery`, terms only ask for values: reading
@@ -202,6 +205,9 @@ class Smt2Driver {
   /// Parameters of function definitions and quantified variables.
   Variables bound_variables_;
 
+  /// True if the body of a function with parameters is being read.
+  bool in_function_{false};
+
   /// True if the terms of a get-value command are being read.
   bool in_query_{false};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 2e31ffb..1837c05 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -523,8 +523,7 @@ exit_scope: /* */ {
         ;
 
 name_sort: '(' SYMBOL sort ')' {
-            $$ = Variable{driver.DeclareLocalVariable($2, $3)};
-            driver.MarkBoundVariable($$);
+            $$ = driver.DeclareParameter($2, $3);
         }
         ;
 
-- 
2.43.0


From 20e1038247398e95f6996da76b0a6214b45eacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 30/41] fix: braces the style check rejects

---
 dreal/smt2/driver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index a152365..844726d 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -353,7 +353,7 @@ void Smt2Driver::DefineLocal(const string& name, const Term& term) {
     const Formula& ft{term.formula()};
     context_.Assert((fv && ft) || (!fv && !ft));
   } else {
-    context_.Assert(Expression{v} == term.expression());
+    context_.Assert(Expression(v) == term.expression());
   }
 }
 
-- 
2.43.0


From a8f97f04b506c4631c7057d5955178d1ac6e46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 31/41] fix: workers of a second live pool had identifiers
 beyond its size

---
 .../ThreadPool/ThreadPool.h                   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index d9b7cfa..975ff04 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -20,12 +20,10 @@ class ThreadPool {
       -> std::future<typename std::result_of<F(Args...)>::type>;
   ~ThreadPool();
 
-  // Returns the thread ID.
+  // Returns the thread ID: i + 1 for the i-th worker of a pool, and 0 for a
+  // thread which is not a worker of any pool.
   // Added by Soonho Kong
-  static int get_thread_id() {
-    thread_local const int tid{global_thread_id_index_++};
-    return tid;
-  }
+  static int get_thread_id() { return mutable_thread_id(); }
 
  private:
   // need to keep track of threads so we can join them
@@ -39,17 +37,22 @@ class ThreadPool {
 
   bool stop;
 
-  // Added by Soonho Kong
+  // Returns a mutable reference to the ID of the current thread.
+  static int& mutable_thread_id() {
+    thread_local int thread_id{0};
+    return thread_id;
+  }
+
+  // Not used any more. It is here for the objects which were compiled with the
+  // version of this file which used it.
   static std::atomic<int> global_thread_id_index_;
 };
 
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
-  // To make sure that the thread that created this pool gets the ID 0.
-  get_thread_id();
-
   for (size_t i = 0; i < threads; ++i)
-    workers.emplace_back([this] {
+    workers.emplace_back([this, i] {
+      mutable_thread_id() = static_cast<int>(i) + 1;
       for (;;) {
         std::function<void()> task;
 
@@ -97,10 +100,6 @@ inline ThreadPool::~ThreadPool() {
   }
   condition.notify_all();
   for (std::thread& worker : workers) worker.join();
-
-  // Reset to 1 instead of 0 since 0 is preserved for the main thread.
-  // Added by Soonho Kong
-  global_thread_id_index_ = 1;
 }
 
 #endif
-- 
2.43.0


From 651afea134cb99cfd3675248eb18099c4597278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 32/41] fix: a zero midpoint was printed as -0, which is not a
 numeral

---
 dreal/symbolic/prefix_printer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/symbolic/prefix_printer.cc b/dreal/symbolic/prefix_printer.cc
index 1655082..599c656 100644
--- a/dreal/symbolic/prefix_printer.cc
+++ b/dreal/symbolic/prefix_printer.cc
@@ -29,7 +29,8 @@ namespace dreal {
 namespace {
 ostream& print_constant(ostream& os, double c) {
   if (c >= 0) {
-    return os << c;
+    // Note that -0.0 is printed as 0, since "-0" is not a numeral.
+    return os << (c == 0 ? 0.0 : c);
   } else {
     return os << "(- " << (-c) << ")";
   }
-- 
2.43.0


From 653a3c2c6f05fdf52d51402e78e18a6999839e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 33/41] fix: stale contractors and evaluators after a change of
 the precision or the number of jobs

---
 dreal/solver/theory_solver.cc | 33 ++++++++++++++++++++++++++++-----
 dreal/solver/theory_solver.h  |  7 +++++++
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 553c924..e189b96 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -44,15 +44,37 @@ using std::equal_to;
 using std::make_unique;
 using std::numeric_limits;
 using std::set;
+using std::unique_ptr;
 using std::vector;
 
-TheorySolver::TheorySolver(const Config& config)
-    : config_{config}, icp_{nullptr} {
-  if (config_.number_of_jobs() > 1) {
-    icp_ = make_unique<IcpParallel>(config_);
+namespace {
+unique_ptr<Icp> MakeIcp(const Config& config) {
+  if (config.number_of_jobs() > 1) {
+    return make_unique<IcpParallel>(config);
   } else {
-    icp_ = make_unique<IcpSeq>(config_);
+    return make_unique<IcpSeq>(config);
+  }
+}
+}  // namespace
+
+TheorySolver::TheorySolver(const Config& config)
+    : config_{config},
+      precision_{config.precision()},
+      number_of_jobs_{config.number_of_jobs()},
+      icp_{MakeIcp(config)} {}
+
+void TheorySolver::UpdateOptions() {
+  if (precision_ == config_.precision() &&
+      number_of_jobs_ == config_.number_of_jobs()) {
+    return;
+  }
+  contractor_cache_.clear();
+  formula_evaluator_cache_.clear();
+  if (number_of_jobs_ != config_.number_of_jobs()) {
+    icp_ = MakeIcp(config_);
   }
+  precision_ = config_.precision();
+  number_of_jobs_ = config_.number_of_jobs();
 }
 
 namespace {
@@ -285,6 +307,7 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
   }
 
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
+  UpdateOptions();
   ContractorStatus contractor_status(box);
 
   // Icp Step
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index b64a158..e8014f5 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -58,7 +58,14 @@ class TheorySolver {
   std::vector<FormulaEvaluator> BuildFormulaEvaluator(
       const std::vector<Formula>& assertions);
 
+  // Drops what was built with another precision or number of jobs.
+  void UpdateOptions();
+
   const Config& config_;
+  // The precision and the number of jobs with which the ICP algorithm, the
+  // cached contractors and the cached evaluators were built.
+  double precision_;
+  int number_of_jobs_;
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
-- 
2.43.0


From 6d3fce1bc85db9c0179161cef74f0032a6143a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 34/41] fix: Minimize lost the ends of integer domains and
 refused Boolean variables

---
 dreal/solver/context_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index ba3c5f7..2857f53 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -275,6 +275,7 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
   // and applied into `box()`.
   set<Formula> set_of_negated_phi;  // Collects ¬ϕᵢ(y).
   ExpressionSubstitution subst;  // Maps xᵢ ↦ yᵢ to build f(y₁, ..., yₙ).
+  FormulaSubstitution boolean_subst;  // The same for Boolean variables.
   Variables quantified_variables;  // {y₁, ... yₙ}
   Variables x_vars;
   for (const Expression& f : functions) {
@@ -298,14 +299,25 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
 
   for (const Variable& x_i : x_vars) {
     // We add postfix '_' to name y_i
+    if (x_i.get_type() == Variable::Type::BOOLEAN) {
+      // Under the quantifier, we use a binary variable instead.
+      const Variable y_i{x_i.get_name() + "_", Variable::Type::BINARY};
+      quantified_variables.insert(y_i);
+      boolean_subst.emplace(x_i, 0.5 <= y_i);
+      continue;
+    }
     const Variable y_i{x_i.get_name() + "_", x_i.get_type()};
     quantified_variables.insert(y_i);
     subst.emplace(x_i, y_i);
+    // The bounds on y_i will be strengthened by a delta. A margin of 0.5 keeps
+    // the ends of the domain of an integer variable and adds no integer.
+    const double margin{x_i.get_type() == Variable::Type::CONTINUOUS ? 0.0
+                                                                     : 0.5};
     // If `box()[x_i]` has a finite bound, let's add that information in
     // set_of_negated_phi as a constraint on y_i.
     const Box::Interval& bound_on_x_i{box()[x_i]};
-    const double lb_x_i{bound_on_x_i.lb()};
-    const double ub_x_i{bound_on_x_i.ub()};
+    const double lb_x_i{bound_on_x_i.lb() - margin};
+    const double ub_x_i{bound_on_x_i.ub() + margin};
     if (isfinite(lb_x_i)) {
       set_of_negated_phi.insert(!(lb_x_i <= y_i));
     }
@@ -315,7 +327,7 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
   }
 
   for (const Formula& constraint : constraints) {
-    set_of_negated_phi.insert(!constraint.Substitute(subst));
+    set_of_negated_phi.insert(!constraint.Substitute(subst, boolean_subst));
   }
 
   Formula quantified{make_disjunction(set_of_negated_phi)};  // ∨ᵢ ¬ϕᵢ(y)
-- 
2.43.0


From 067067f5992b8595eb0eb775d48f2676339540d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 35/41] fix: keep variables outside the substitution in an
 uninterpreted function

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index fd934a3..e7f2ebb 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2138,6 +2138,7 @@ Expression ExpressionUninterpretedFunction::Substitute(
   // This method implements the following substitution:
   //     uf(name, {v₁, ..., vₙ}).Substitute(expr_subst, formula_subst)
   //   = uf(name, ⋃ᵢ (expr_subst[vᵢ].GetVariables() ∪ formula_subst[vᵢ])
+  // where a variable that is not in the substitution stays as it is.
   //
   // For example, we have:
   //     uf("uf1", {x, y, b}).Substitute({x ↦ 1, y ↦ y + z}, {b ↦ x > 0})
@@ -2148,10 +2149,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars.insert(var);
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars.insert(var);
       }
     }
   }
-- 
2.43.0


From 9dacee939036519339b3540c6fdaec865e16c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 36/41] fix: refuse an undefined power inside a product instead
 of returning NaN

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 ++++-
 .../dreal/symbolic/symbolic_expression_cell.h                | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index e7f2ebb..5e6077f 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -851,7 +851,10 @@ double ExpressionMul::Evaluate(const Environment& env) const {
   return accumulate(
       base_to_exponent_map_.begin(), base_to_exponent_map_.end(), constant_,
       [&env](const double init, const pair<const Expression, Expression>& p) {
-        return init * std::pow(p.first.Evaluate(env), p.second.Evaluate(env));
+        const double base{p.first.Evaluate(env)};
+        const double exponent{p.second.Evaluate(env)};
+        ExpressionPow::check_domain(base, exponent);
+        return init * std::pow(base, exponent);
       });
 }
 
diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
index 72b6c64..0a889a0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
@@ -623,6 +623,7 @@ class ExpressionPow : public BinaryExpressionCell {
   std::ostream& Display(std::ostream& os) const override;
 
   friend Expression pow(const Expression& e1, const Expression& e2);
+  friend class ExpressionMul;
 
  private:
   /* Throws std::domain_error if v1 is finite negative and v2 is finite
-- 
2.43.0


From dc13f8d98bb4782e1acf1469413e7054823bb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 37/41] fix: substitute only in the selected branch when the
 condition of an if-then-else is decided

---
 .../dreal/symbolic/symbolic_expression_cell.cc             | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 5e6077f..5316afe 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2072,6 +2072,13 @@ Expression ExpressionIfThenElse::Substitute(
     const ExpressionSubstitution& expr_subst,
     const FormulaSubstitution& formula_subst) {
   const Formula f_cond_subst{f_cond_.Substitute(expr_subst, formula_subst)};
+  // The branch that is not selected may have no value.
+  if (is_true(f_cond_subst)) {
+    return e_then_.Substitute(expr_subst, formula_subst);
+  }
+  if (is_false(f_cond_subst)) {
+    return e_else_.Substitute(expr_subst, formula_subst);
+  }
   const Expression e_then_subst{e_then_.Substitute(expr_subst, formula_subst)};
   const Expression e_else_subst{e_else_.Substitute(expr_subst, formula_subst)};
   if (!f_cond_.EqualTo(f_cond_subst) || !e_then_.EqualTo(e_then_subst) ||
-- 
2.43.0


From c192733b1926caa6675b783dc7a08c7c5cbba204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 38/41] fix: give an integer variable a value of its interval
 when it exceeds int

---
 dreal/solver/context_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2857f53..6cb0012 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -41,6 +41,7 @@ using std::ostringstream;
 using std::pair;
 using std::set;
 using std::string;
+using std::trunc;
 using std::unordered_set;
 using std::vector;
 
@@ -67,7 +68,8 @@ void Tighten(Box* box, const double delta) {
         } break;
         case Variable::Type::INTEGER: {
           const double mid{interval.mid()};
-          interval = static_cast<int>(mid);
+          // Adding 0.0 turns -0.0 into 0.0.
+          interval = trunc(mid) + 0.0;
         } break;
       }
     }
-- 
2.43.0


From 2c60b6f096ebcd632c152fafef9e5adea26d7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 39/41] fix: print the bounds of integer variables which exceed
 int

---
 dreal/util/box.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 7791f9b..673e69c 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -36,6 +36,7 @@ using std::make_shared;
 using std::numeric_limits;
 using std::ostream;
 using std::pair;
+using std::trunc;
 using std::unordered_map;
 using std::vector;
 
@@ -241,8 +242,9 @@ ostream& operator<<(ostream& os, const Box& box) {
         if (interval.is_empty()) {
           os << "[ empty ]";
         } else {
-          os << "[" << static_cast<int>(interval.lb()) << ", "
-             << static_cast<int>(interval.ub()) << "]";
+          // Adding 0.0 turns -0.0 into 0.0.
+          os << "[" << trunc(interval.lb()) + 0.0 << ", "
+             << trunc(interval.ub()) + 0.0 << "]";
         }
         break;
       case Variable::Type::CONTINUOUS:
-- 
2.43.0


From b5193d9c89dab8063171e7243a3ed0891a2bf5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 40/41] fix: leave counterexamples with integer variables to
 the search

---
 dreal/contractor/counterexample_refiner.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 62e8bfe..7427d5d 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -36,6 +36,16 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
     forall_vec_.push_back(var);
   }
 
+  // The local optimization is about continuous variables. The values it finds
+  // for the others can be outside of their types.
+  for (const Variable& var : forall_vec_) {
+    if (var.get_type() != Variable::Type::CONTINUOUS) {
+      // This will leave opt_ as nullptr. `Refine(box)` will return box then.
+      DREAL_ASSERT(!opt_);
+      return;
+    }
+  }
+
   // 1. Filter bound constraints.
   Box box{forall_vec_};
   vector<Formula> formulas;
-- 
2.43.0


From daee15e415ecc1e369af725ea7ae2b90d415aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 41/41] fix: bind a quantified variable which only occurs in
 its domain

---
 dreal/smt2/parser.yy | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 1837c05..6de5cce 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -379,7 +379,9 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    if (quantified_variables.empty()) {
 	        $$ = body;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+                // Variables which only occur in the domain are bound, too.
+                const Formula f = imply(domain, body);
+                $$ = forall(intersect(vars, f.GetFreeVariables()), f);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0

