From 87ff6b8651b5f9e824962d9a700f713084c9cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 01/20] fix: ceildiv rounds towards positive infinity

It rounded up when the operands have opposite signs, where truncating
division already does, and not when they have equal signs.  Nonlinear
propagation with a negative coefficient lost solutions:
  &nsum { x*y; -2*z } <= 1  over -1..1 had 14 instead of 20 answers.
---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..6413519 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (((n < 0) == (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From 479b36198126703337cfc7ac122e1152b6563c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 02/20] fix: sum propagation also tightens a bound by a single
 value

---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..b43eda5 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -212,7 +212,7 @@ template <bool tagged, typename T> class SumConstraintStateImpl final : public T
                 value_r = vs_r.lower_bound() + delta_r;
                 assert(slack - co_r * delta_r < 0 && 0 <= slack - co_r * (delta_r - 1));
                 // values above the upper bound are already true;
-                if (value_r >= vs_r.upper_bound()) {
+                if (value_r > vs_r.upper_bound()) {
                     continue;
                 }
                 // get the literal of the value;
-- 
2.43.0


From b14f2a19986ca0b9fd96caef3d1c4dc6994d5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 03/20] fix: integrate facts with the current neighbouring
 order literals

---
 libclingcon/src/solver.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..36adc93 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -792,17 +792,20 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
     // Fact propagation. (Could also be put in the litmap...)
     if (lit == TRUE_LIT) {
         assert(ass.decision_level() == 0);
+        // Note: Further order literals might have been added since a fact was
+        // recorded. Hence, the neighboring literals are looked up here.
         for (auto [fact_lit, var, value, prec_lit] : factmap_) {
+            static_cast<void>(prec_lit);
             auto &vs = var_state(var);
             if (fact_lit == TRUE_LIT) {
-                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, vs.lit_succ(value))) {
                     return false;
                 }
                 assert(vs.get_literal(value) == TRUE_LIT);
                 update_litmap_(vs, 0, value);
                 vs.unset_literal(value);
             } else {
-                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, vs.lit_prev(value))) {
                     return false;
                 }
                 assert(vs.get_literal(value) == -TRUE_LIT);
-- 
2.43.0


From 858991b30884ad698126db78b9a3ddb1036d33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 04/20] fix: an empty domain makes its literal false

---
 libclingcon/src/solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 36adc93..0bc1213 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1036,6 +1036,10 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // no value can be taken from an empty domain
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From fadabecb84a0552b770099e0596148e79432c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/20] fix: nonlinear propagation takes the constraint literal
 into account

---
 libclingcon/src/constraints.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index b43eda5..486d822 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1443,6 +1443,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
         nsum_t rhs = constraint_.rhs();
         nsum_t lower_lhs = lower_t + lower_u;
         nsum_t upper_lhs = upper_t + upper_u;
+        auto clit = constraint_.literal();
 
         if (upper_lhs <= rhs) {
             solver.mark_inactive(*this);
@@ -1470,9 +1471,15 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, *vs_z, vs_z->lower_bound() - 1));
                 }
             }
+            reason.emplace_back(-clit);
             return cc.add_clause(reason);
         }
 
+        // the bounds below only follow if the constraint has to hold
+        if (!cc.assignment().is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1494,6 +1501,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
+                    reason.emplace_back(-clit);
 
                     reason.emplace_back(solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z)));
                     if (!cc.add_clause(reason)) {
@@ -1510,6 +1518,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
+                    reason.emplace_back(-clit);
 
                     reason.emplace_back(-solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z) - 1));
                     if (!cc.add_clause(reason)) {
-- 
2.43.0


From 36f89c2172fa913c081f0fd45cd3ab83f4739941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 06/20] fix: distinct constraints consider elements assigned
 before attaching

---
 libclingcon/src/constraints.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 486d822..6e4a7c2 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,11 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // Note: there will be no bound updates for elements that are
+            // already assigned.
+            if (lower == upper) {
+                mark_todo_(1, idx);
+            }
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From 199b433f273761d1eb31bdd144cc25cea1af6f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 07/20] fix: disjoint propagation does not overflow with large
 durations

---
 libclingcon/src/constraints.cc | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 6e4a7c2..48ca7c7 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1605,21 +1605,23 @@ class NonlinearConstraintState : public AbstractConstraintState {
 
 //! Capture the state of a disjoint constraint.
 class DisjointConstraintState final : public AbstractConstraintState {
+    // Note: The right end points and sums of durations can exceed the range of
+    // val_t.
     struct Interval {
         size_t var;
-        val_t left;
-        val_t right;
-        val_t last_left;
-        val_t last_right;
-        val_t weight;
-        val_t u;
+        sum_t left;
+        sum_t right;
+        sum_t last_left;
+        sum_t last_right;
+        sum_t weight;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
     template <PropagateType type> struct Algorithm { // NOLINT(cppcoreguidelines-pro-type-member-init)
         using It = std::vector<Interval>::iterator;
 
-        [[nodiscard]] static auto lower(Interval const &i) -> val_t {
+        [[nodiscard]] static auto lower(Interval const &i) -> sum_t {
             if constexpr (type == PropagateType::Lower) {
                 return i.left;
             } else {
@@ -1627,7 +1629,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             }
         }
 
-        [[nodiscard]] static auto upper(Interval const &i) -> val_t {
+        [[nodiscard]] static auto upper(Interval const &i) -> sum_t {
             if constexpr (type == PropagateType::Lower) {
                 return i.right;
             } else {
@@ -1635,19 +1637,19 @@ class DisjointConstraintState final : public AbstractConstraintState {
             }
         }
 
-        [[nodiscard]] static auto lower(It i) -> val_t { return lower(*i); }
+        [[nodiscard]] static auto lower(It i) -> sum_t { return lower(*i); }
 
-        [[nodiscard]] static auto upper(It i) -> val_t { return upper(*i); }
+        [[nodiscard]] static auto upper(It i) -> sum_t { return upper(*i); }
 
-        [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
+        [[nodiscard]] static auto weight(It i) -> sum_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
         }
 
-        [[nodiscard]] auto update_bound(std::vector<lit_t> &reason, It i, val_t b) -> bool {
+        [[nodiscard]] auto update_bound(std::vector<lit_t> &reason, It i, sum_t b) -> bool {
             auto &vs = solver.var_state(i->var);
             if constexpr (type == PropagateType::Lower) {
                 reason.emplace_back(solver.get_literal(cc, vs, vs.lower_bound() - 1));
@@ -1661,7 +1663,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
                 // See for example the sum constraint state, which refines
                 // reasons in the hope of getting better conflict but making
                 // sure to avoid the above mentioned cases.
-                auto val = std::min(b - 1, vs.upper_bound());
+                auto val = static_cast<val_t>(std::min<sum_t>(b - 1, vs.upper_bound()));
                 auto lit = -solver.update_literal(
                     cc, vs, val, reason.empty() ? Clingo::TruthValue::False : Clingo::TruthValue::Free);
                 reason.emplace_back(lit);
@@ -1669,7 +1671,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             } else {
                 reason.emplace_back(-solver.get_literal(cc, vs, vs.upper_bound()));
                 // Note: similar to the note above.
-                auto val = std::max(-b - weight(i) + 1, vs.lower_bound() - 1);
+                auto val = static_cast<val_t>(std::max<sum_t>(-b - weight(i) + 1, vs.lower_bound() - 1));
                 auto lit = solver.update_literal(cc, vs, val,
                                                  reason.empty() ? Clingo::TruthValue::True : Clingo::TruthValue::Free);
                 reason.emplace_back(lit);
@@ -1678,7 +1680,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             return cc.add_clause(reason);
         }
 
-        [[nodiscard]] auto calculate_reason(val_t a, It j) -> std::vector<lit_t> & {
+        [[nodiscard]] auto calculate_reason(sum_t a, It j) -> std::vector<lit_t> & {
             auto ass = cc.assignment();
             auto &reason = solver.temp_reason();
             if (!ass.is_fixed(clit)) {
@@ -1705,7 +1707,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         }
 
         //! Propagate hall interval [a, b].
-        [[nodiscard]] auto propagate(val_t a, val_t b, It i) -> bool {
+        [[nodiscard]] auto propagate(sum_t a, sum_t b, It i) -> bool {
             std::vector<lit_t> *reason{nullptr};
             size_t size{0};
             for (auto j = i + 1; j != end; ++j) {
@@ -1770,7 +1772,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             // subsequences became singletons.
             std::sort(begin, end, [](auto const &a, auto const &b) { return upper(a) < upper(b); });
             for (auto it = std::make_reverse_iterator(end), ie = std::make_reverse_iterator(begin); it != ie;) {
-                val_t min = lower(*it);
+                sum_t min = lower(*it);
                 auto je = it.base();
                 bool has_change = force_update || changed(*it);
                 for (++it; it != ie && upper(*it) >= min; ++it) {
-- 
2.43.0


From 262deea0aa1f831a31dc4862f42a92b344a93b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 08/20] fix: constants in objective functions keep their sign
 between solve calls

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..4e766b2 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            minimize_elems_.emplace_back(safe_inv(minimize_->adjust()), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 18f467b3befae72dfca8a4644ecadeff5066717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 09/20] fix: negation of a strict nonlinear constraint belongs
 to the negated literal

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 4e766b2..ffa40f2 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From 6bda7b051c764d35e1eb5da74418e08bdf78e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 10/20] fix: nonlinear sums with two products are rejected
 instead of losing one

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From dda638fe5661bc5c416c7bde2ab4a4ec3ecb4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 11/20] fix: distinct propagation stops once the constraint
 literal is false

Propagating an element at the top level can make the literal of the
constraint false. Further clauses then omitted the literal because it was
fixed, and conflicts were derived from clauses that are already satisfied.
---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 48ca7c7..d7b29f5 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1160,6 +1160,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
         bool is_fact = elem_j.size() == 1;
 
         auto lit = -constraint_.literal();
+        // the literal might have become false during propagation
+        if (ass.is_true(lit)) {
+            return true;
+        }
         if (!ass.is_fixed(lit)) {
             reason.emplace_back(lit);
         }
-- 
2.43.0


From 234a9d9bd6bb999996bbc2b59146b060c169cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 12/20] fix: disjoint propagation keeps a literal that became
 false in its clauses

If propagation at the top level made the literal of the constraint false,
further clauses omitted it because it was fixed and conflicts were derived
from clauses that are already satisfied.
---
 libclingcon/src/constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index d7b29f5..544347c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1687,7 +1687,8 @@ class DisjointConstraintState final : public AbstractConstraintState {
         [[nodiscard]] auto calculate_reason(sum_t a, It j) -> std::vector<lit_t> & {
             auto ass = cc.assignment();
             auto &reason = solver.temp_reason();
-            if (!ass.is_fixed(clit)) {
+            // Note: the literal might have become false during propagation.
+            if (!ass.is_fixed(clit) || ass.is_false(clit)) {
                 reason.emplace_back(-clit);
             }
             for (auto i = begin; i != j; ++i) {
-- 
2.43.0


From 2e6c79d6d0ec9a3064dd71a517485939cad6b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 13/20] fix: difference constraints in integrity constraints
 are not shifted to unsupported relations

---
 libclingcon/src/parsing.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..38c8306 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,6 +119,12 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // Note: the theory only provides relation `<=` for difference
+        // constraints so that they cannot be negated.
+        if (static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation &&
+            match(atom.get<Node>(Attribute::Term), "diff")) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
-- 
2.43.0


From cdacd4386af64ebb4ac0a5b7fbcbc2856b4b7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 14/20] fix: the decision callback is chosen for each
 registered theory

---
 libclingcon/src/clingcon.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..8485191 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,9 +347,11 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    static clingo_propagator_t propagator = {init, propagate, undo, check, nullptr};
+    static clingo_propagator_t propagator_heuristic = {init, propagate, undo, check, decide};
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
-           clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
+           clingo_control_register_propagator(control, has_heuristic ? &propagator_heuristic : &propagator,
+                                              &theory->propagator, false);
 }
 
 extern "C" auto clingcon_rewrite_ast(clingcon_theory_t *theory, clingo_ast_t *ast, clingcon_ast_callback_t add,
-- 
2.43.0


From e56ae781bf09bd3b6604e12c0a285980b00b4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 15/20] fix: abbreviated, empty, and negative option values are
 rejected

---
 libclingcon/src/clingcon.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 8485191..eeef78f 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -120,10 +120,19 @@ template <typename... Args> [[nodiscard]] auto format(Args &&...args) -> std::st
     return oss.str();
 }
 
+[[nodiscard]] auto equals(char const *begin, char const *end, char const *str) -> bool {
+    size_t len = end != nullptr ? end - begin : std::strlen(begin);
+    return len == std::strlen(str) && std::strncmp(begin, str, len) == 0;
+}
+
 template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -> T {
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
     }
+    if (std::is_unsigned_v<T> && ib != ie && *ib == '-') {
+        // Note: The stream would wrap negative numbers around.
+        throw std::invalid_argument("invalid argument");
+    }
     std::istringstream iss{std::string{ib, ie}};
     iss.imbue(std::locale::classic());
     iss.exceptions(std::iostream::failbit);
@@ -141,10 +150,10 @@ template <class T>
                                    T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max())
     -> T {
     assert(min <= max);
-    if (strncmp(begin, "min", end - begin) == 0) {
+    if (equals(begin, end, "min")) {
         return min;
     }
-    if (strncmp(begin, "max", end - begin) == 0) {
+    if (equals(begin, end, "max")) {
         return max;
     }
     auto res = strtonum<T>(begin, end);
@@ -211,13 +220,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_bool(char const *begin, char const *end = nullptr) -> bool {
-    size_t len = end != nullptr ? end - begin : std::strlen(begin);
-    if (std::strncmp(begin, "true", len) == 0 || std::strncmp(begin, "yes", len) == 0 ||
-        std::strncmp(begin, "1", len) == 0) {
+    if (equals(begin, end, "true") || equals(begin, end, "yes") || equals(begin, end, "1")) {
         return true;
     }
-    if (std::strncmp(begin, "false", len) == 0 || std::strncmp(begin, "no", len) == 0 ||
-        std::strncmp(begin, "0", len) == 0) {
+    if (equals(begin, end, "false") || equals(begin, end, "no") || equals(begin, end, "0")) {
         return false;
     }
     throw std::invalid_argument("invalid argument");
@@ -247,10 +253,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "+", comma - value) == 0) {
+    if (equals(value, comma, "+")) {
         return {std::numeric_limits<val_t>::max(), thread};
     }
-    if (std::strncmp(value, "-", comma - value) == 0) {
+    if (equals(value, comma, "-")) {
         return {std::numeric_limits<val_t>::min(), thread};
     }
     return {parse_range_num<val_t>(value, comma), thread};
@@ -272,10 +278,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "none", comma - value) == 0) {
+    if (equals(value, comma, "none")) {
         return {static_cast<val_t>(Heuristic::None), thread};
     }
-    if (std::strncmp(value, "max-chain", comma - value) == 0) {
+    if (equals(value, comma, "max-chain")) {
         return {static_cast<val_t>(Heuristic::MaxChain), thread};
     }
     throw std::invalid_argument("invalid argument");
-- 
2.43.0


From 7a39ba4ec8488c546ef8f4a0ac3cd30c5fbdd641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 16/20] fix: the total clause limit is read as an unsigned
 number

---
 libclingcon/src/clingcon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index eeef78f..045f833 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -263,10 +263,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_translate_clause(char const *value) -> std::pair<uint32_t, std::optional<uint64_t>> {
-    std::optional<val_t> total = std::nullopt;
+    std::optional<uint64_t> total = std::nullopt;
     char const *comma = find_str(value, ',');
     if (*comma != '\0') {
-        total = parse_num<val_t>(comma + 1); // NOLINT
+        total = parse_num<uint64_t>(comma + 1); // NOLINT
     }
     return {parse_range_num<uint32_t>(value, comma), total};
 }
-- 
2.43.0


From ba3026b60b1c231300bd781ccc19d221070e4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 17/20] fix: statistics do not wrap if constraints of previous
 steps are translated

---
 libclingcon/clingcon/base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..304b0f6 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -187,7 +187,7 @@ struct Statistics {
     double time_translate = 0;
     double time_simplify = 0;
     uint64_t num_variables = 0;
-    uint64_t num_constraints = 0;
+    int64_t num_constraints = 0; //!< may decrease in a step
     uint64_t num_clauses = 0;
     uint64_t num_literals = 0;
     uint64_t translate_removed = 0;
-- 
2.43.0


From 5aea612734a2f0e3e3fa6515a14d9113023bb537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 18/20] fix: rewrite theory atoms whose name is given as a
 symbolic term

---
 libclingcon/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 38c8306..d5adf53 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -73,7 +73,7 @@ using Clingcon::match;
 template <typename... CStrs> auto match(Clingo::AST::Node const &ast, CStrs... strs) -> bool {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
-        auto sym = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto sym = ast.get<Clingo::Symbol>(Attribute::Symbol);
         return (sym.match(strs, 0) || ...);
     }
     if (ast.type() == Type::Function) {
@@ -148,12 +148,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From 24a913a927977ba0da5bda95a176812a84da0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 19/20] fix: distinct constraints are not translated using
 outdated bounds

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 544347c..cfe6b56 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -845,6 +845,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // Note: Bounds of terms might have been changed since the constraint was
+        // last propagated.
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From c9480ca1dcc8aca89134ff3dbadf30731d9296fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 20/20] fix: weight constraints that are already satisfied do
 not fix their literal

---
 libclingcon/clingcon/base.hh | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index 304b0f6..c63811d 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -25,8 +25,11 @@
 #ifndef CLINGCON_BASE_H
 #define CLINGCON_BASE_H
 
+#include <algorithm>
 #include <clingo.hh>
+#include <cstdlib>
 #include <forward_list>
+#include <map>
 #include <math/wide_integer/uintwide_t.h>
 #include <optional>
 
@@ -372,7 +375,13 @@ class InitClauseCreator final : public AbstractClauseCreator {
         }
         clauses_ = Clause();
 
-        for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
+        for (auto const &wc : weight_constraints_) {
+            // Note: The solver might treat a constraint whose literal or sum is
+            // already decided as an equivalence.
+            if (is_satisfied_(wc)) {
+                continue;
+            }
+            auto const &[lit, wlits, bound, type] = wc;
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
                 return false;
@@ -389,6 +398,37 @@ class InitClauseCreator final : public AbstractClauseCreator {
     }
 
   private:
+    //! Check if an implication is satisfied w.r.t. the current assignment.
+    [[nodiscard]] auto is_satisfied_(WeightConstraint const &wc) const -> bool {
+        auto const &[lit, wlits, bound, type] = wc;
+        if (type == Clingo::WeightConstraintType::Equivalence) {
+            return false;
+        }
+        auto ass = init_.assignment();
+        if (type > 0 ? ass.is_false(lit) : ass.is_true(lit)) {
+            return true;
+        }
+
+        // determine the smallest and largest possible sum
+        sum_t min = 0;
+        sum_t max = 0;
+        std::map<lit_t, std::pair<sum_t, sum_t>> weights;
+        for (auto const &wlit : wlits) {
+            if (ass.is_true(wlit.literal())) {
+                min += wlit.weight();
+                max += wlit.weight();
+            } else if (!ass.is_false(wlit.literal())) {
+                auto &[pos, neg] = weights[std::abs(wlit.literal())];
+                (wlit.literal() > 0 ? pos : neg) += wlit.weight();
+            }
+        }
+        for (auto const &[var, weight] : weights) {
+            min += std::min(weight.first, weight.second);
+            max += std::max(weight.first, weight.second);
+        }
+        return type > 0 ? max <= bound : min > bound;
+    }
+
     InitState state_{InitState::Init};
     Clingo::PropagateInit &init_;
     Statistics &stats_;
-- 
2.43.0

