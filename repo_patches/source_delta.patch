From e4a85b74df4ac405a26604229a4cb6e21143b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/61] fix: isqrt throws on the largest representable value

isqrt formed n + 1 before halving, so isqrt(Integer::max_value()) threw
IntegerOverflow although its result is representable.
---
 gcs/constraints/innards/product_bounds.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/innards/product_bounds.hh b/gcs/constraints/innards/product_bounds.hh
index 04108bd..767f1fd 100644
--- a/gcs/constraints/innards/product_bounds.hh
+++ b/gcs/constraints/innards/product_bounds.hh
@@ -42,7 +42,8 @@ namespace gcs::innards
         if (n < 2_i)
             return n;
         // Newton's method on integers: converges for any positive start >= isqrt(n).
-        auto x = n, y = (x + 1_i) / 2_i;
+        // The first step is ceil(n / 2), written so that n + 1 is never formed.
+        auto x = n, y = x / 2_i + x % 2_i;
         while (y < x) {
             x = y;
             y = (x + n / x) / 2_i;
-- 
2.43.0


From 1361ddaa5d48b36ecfdcf505acf9e8a5212dd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 02/61] fix: regular expression literals beyond the integer
 range overflow silently

A digit run longer than a long long was accumulated with unchecked signed
arithmetic, which is undefined behaviour and in practice silently changed
the symbol. Reject it as an invalid expression instead.
---
 gcs/constraints/regular/regex.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..528c49c 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
+#include <gcs/innards/integer_overflow.hh>
 
 #include <cstddef>
 #include <map>
@@ -72,7 +73,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (gcs::innards::mul_overflows(value, 10LL, &value) || gcs::innards::add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException("Integer out of range in regular expression");
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
-- 
2.43.0


From d529e6e46e2efc4dd49ff038edcad59e09b256c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 03/61] fix: variable_order::with_largest_value is declared and
 documented but never defined

---
 gcs/search_heuristics.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index bcf9c0e..211167c 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -284,6 +284,19 @@ auto gcs::variable_order::with_smallest_value(vector<IntegerVariableID> vars) ->
         });
 }
 
+auto gcs::variable_order::with_largest_value(const Problem & problem) -> BranchVariableHeuristic
+{
+    return with_largest_value(problem.all_normal_variables());
+}
+
+auto gcs::variable_order::with_largest_value(vector<IntegerVariableID> vars) -> BranchVariableHeuristic
+{
+    return variable_order::in_order_of(
+        vars, [](const CurrentState & state, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
+            return state.upper_bound(a) > state.upper_bound(b);
+        });
+}
+
 namespace
 {
     auto random_value_generator(shared_ptr<mt19937> rand) -> BranchValueGenerator
-- 
2.43.0


From 5191400f042192c730315638839856de06c7ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 04/61] fix: refined conflict weighting reads the bounds of a
 wiped-out domain

---
 gcs/variable_weighting.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/variable_weighting.cc b/gcs/variable_weighting.cc
index d60fee1..1a9c5ff 100644
--- a/gcs/variable_weighting.cc
+++ b/gcs/variable_weighting.cc
@@ -213,16 +213,18 @@ RefinedWeighting::RefinedWeighting(const Propagators & propagators, const State
 auto RefinedWeighting::note_conflict(
     int constraint_index, const vector<SimpleIntegerVariableID> & scope, const optional<Reason> &, const State & state) -> void
 {
+    // A variable whose domain the conflict wiped out is still a future variable, of size
+    // zero, and has no bounds for has_single_value() to compare: so ask for its size.
     long long futures = 0;
     for (const auto & v : scope)
-        if (! state.has_single_value(v))
+        if (state.domain_size(v) != 1_i)
             ++futures;
     if (futures == 0)
         return;
 
     auto & weights = _local_weights[constraint_index];
     for (const auto & x : scope) {
-        if (state.has_single_value(x))
+        if (state.domain_size(x) == 1_i)
             continue;
         double increment = 0.0;
         switch (_variant) {
-- 
2.43.0


From 2d7ddd89a27c077629b7d55b2c006498194e24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 05/61] fix: value-consistent all-different ignores variables
 that start out fixed

---
 gcs/constraints/all_different/all_different.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/all_different/all_different.cc b/gcs/constraints/all_different/all_different.cc
index 66f53b3..6d18818 100644
--- a/gcs/constraints/all_different/all_different.cc
+++ b/gcs/constraints/all_different/all_different.cc
@@ -120,12 +120,13 @@ auto AllDifferent::prepare(Propagators &, State & initial_state, ProofModel * co
     // backtrackable state: VC runs it as its whole propagator, GAC as the
     // cheap first stage of its staged propagator when the constraint is big
     // enough for staging to pay. Skipped otherwise: an unused constraint
-    // state would still be saved and restored at every search node.
+    // state would still be saved and restored at every search node. Variables
+    // that start out with a single value belong in it too: the pass pushes a
+    // value through the clique when it takes that variable off this list.
     if (holds_alternative<consistency::VC>(_level) || _gac_staged) {
         NonGacAllDifferentUnassigned unassigned{};
         for (auto & var : _sanitised_vars)
-            if (! initial_state.has_single_value(var))
-                unassigned.push_back(var);
+            unassigned.push_back(var);
         _unassigned_handle = initial_state.add_constraint_state(unassigned);
     }
 
-- 
2.43.0


From efc7379307c1a7cdd02d87439c271e154c3ab9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 06/61] fix: cumulative without time-tabling accepts schedules
 over capacity

---
 gcs/constraints/cumulative/cumulative.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index a90bfaa..1fff803 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -51,6 +51,7 @@ using std::stringstream;
 using std::uint64_t;
 using std::unique_ptr;
 using std::vector;
+using std::ranges::all_of;
 using std::ranges::fill;
 using std::ranges::find;
 using std::ranges::none_of;
@@ -1335,7 +1336,14 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                 mand_load[(t - t_lo).raw_value] += hlb(i);
     }
 
-    for (auto idx = 0; rules.time_table && idx < range; ++idx)
+    // Turning time-tabling off gives up its inferences, but a fully decided
+    // schedule still has to be checked against the capacity: the overload check
+    // alone does not notice every schedule that does not fit.
+    auto check_profile = rules.time_table || all_of(active_tasks, [&](size_t i) {
+        return is_absent(i) || (is_present(i) && state.has_single_value(starts[i]) && llb(i) == lub(i) && state.has_single_value(heights_var[i]));
+    });
+
+    for (auto idx = 0; check_profile && idx < range; ++idx)
         if (mand_load[idx] > capacity) {
             auto violating_t = t_lo + Integer{idx};
 
-- 
2.43.0


From ff6b3ad9c81277f5e2856cb9797fe03a4ae3721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 07/61] fix: inverse with different starting indices loses
 every solution

---
 gcs/constraints/inverse/inverse.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..bcc19f7 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,8 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        // The values x takes are positions in y, so they are counted from y_start.
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +124,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +137,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -150,7 +151,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
 
     vector<Integer> x_values;
     for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0


From 0d77b5dd2992a4e5590f8e96b44a7ff42027cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 08/61] fix: half-reified linear equalities enforce the
 negation under a literal that is false

LinearEqualityIf with a false literal enforced the disequality, LinearNotEqualsIf with a true literal enforced the equality, and with a false literal the disequality.
---
 gcs/constraints/linear/linear_equality.cc | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/linear/linear_equality.cc b/gcs/constraints/linear/linear_equality.cc
index 8c3e4c4..1a1be66 100644
--- a/gcs/constraints/linear/linear_equality.cc
+++ b/gcs/constraints/linear/linear_equality.cc
@@ -503,25 +503,38 @@ LinearEquality::LinearEquality(WeightedSum coeff_vars, Integer value) : ReifiedL
 
 namespace
 {
-    template <typename T_>
-    auto literal_to_reif(const Literal & cond) -> ReificationCondition
+    auto literal_to_iff(const Literal & cond) -> ReificationCondition
     {
         return overloaded{
-            [&](const TrueLiteral &) -> ReificationCondition { return reif::MustHold{}; },          //
-            [&](const FalseLiteral &) -> ReificationCondition { return reif::MustNotHold{}; },      //
-            [&](const IntegerVariableCondition & cond) -> ReificationCondition { return T_{cond}; } //
+            [&](const TrueLiteral &) -> ReificationCondition { return reif::MustHold{}; },                  //
+            [&](const FalseLiteral &) -> ReificationCondition { return reif::MustNotHold{}; },              //
+            [&](const IntegerVariableCondition & cond) -> ReificationCondition { return reif::Iff{cond}; } //
+        }
+            .visit(cond);
+    }
+
+    // Half_ is reif::If or reif::NotIf, and WhenTrue_ is what it becomes once its
+    // condition holds. A condition that can never hold leaves the constraint
+    // deactivated, rather than enforcing its negation.
+    template <typename Half_, typename WhenTrue_>
+    auto literal_to_half_reif(const Literal & cond) -> ReificationCondition
+    {
+        return overloaded{
+            [&](const TrueLiteral &) -> ReificationCondition { return WhenTrue_{}; },                                             //
+            [&](const FalseLiteral &) -> ReificationCondition { return Half_{constant_variable(0_i) != 0_i}; }, //
+            [&](const IntegerVariableCondition & cond) -> ReificationCondition { return Half_{cond}; }                            //
         }
             .visit(cond);
     }
 }
 
 LinearEqualityIf::LinearEqualityIf(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::If>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_half_reif<reif::If, reif::MustHold>(cond))
 {
 }
 
 LinearEqualityIff::LinearEqualityIff(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_iff(cond))
 {
 }
 
@@ -530,11 +543,11 @@ LinearNotEquals::LinearNotEquals(WeightedSum coeff_vars, Integer value) : Reifie
 }
 
 LinearNotEqualsIf::LinearNotEqualsIf(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::NotIf>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_half_reif<reif::NotIf, reif::MustNotHold>(cond))
 {
 }
 
 LinearNotEqualsIff::LinearNotEqualsIff(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(! cond), true)
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_iff(! cond), true)
 {
 }
-- 
2.43.0


From 782d9d2f1dcf92ee12ce5f593a83a431f6695588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 09/61] fix: smart tables lose solutions when their variables
 are views

Supports were tracked against the view rather than the variable underneath, so every value of the underlying variable looked unsupported (issue 238).
---
 gcs/constraints/smart_table/smart_table.cc | 52 +++++++++++++---------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 06b6e4e..9a29a75 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -132,7 +132,7 @@ namespace
         overloaded{
             [&](ConstantIntegerVariableID) -> void { throw UnimplementedException{}; }, //
             [&](ViewOfIntegerVariableID v) -> void {
-                auto mod_vec = vector<Integer>(vdom[v.actual_variable].size(), 0_i);
+                auto mod_vec = vector<Integer>(vec.size(), 0_i);
                 for (unsigned i = 0; i < vec.size(); i++) {
                     mod_vec[i] = (v.negate_first ? -1_i : 1_i) * (vec[i] - v.then_add);
                 }
@@ -186,10 +186,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val < dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < dom_2[dom_2.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < dom_2[dom_2.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -198,10 +198,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val <= dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < (dom_2[dom_2.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < (dom_2[dom_2.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -215,7 +215,7 @@ namespace
                             vector<Integer> discarded_dom1;
                             set_difference(dom_1, dom_2, back_inserter(discarded_dom1));
                             for (const auto & val : discarded_dom1) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != val, state, inference,
                                     singleton_reason(binary_entry.var_2 != val));
                             }
                         }
@@ -224,7 +224,7 @@ namespace
                             vector<Integer> discarded_dom2;
                             set_difference(dom_2, dom_1, back_inserter(discarded_dom2));
                             for (const auto & val : discarded_dom2) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != val, state, inference,
                                     singleton_reason(binary_entry.var_1 != val));
                             }
                         }
@@ -235,7 +235,7 @@ namespace
                         new_dom_1 = dom_1;
                         set_difference(dom_2, dom_1, back_inserter(new_dom_2));
                         if (logger && new_dom_2.size() < dom_2.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 == dom_1[0]));
                         }
                     }
@@ -243,7 +243,7 @@ namespace
                         new_dom_2 = dom_2;
                         set_difference(dom_1, dom_2, back_inserter(new_dom_1));
                         if (logger && new_dom_1.size() < dom_1.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 == dom_2[0]));
                         }
                     }
@@ -257,10 +257,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val < dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < dom_1[dom_1.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < dom_1[dom_1.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -269,10 +269,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val <= dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < (dom_1[dom_1.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < (dom_1[dom_1.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -358,11 +358,12 @@ namespace
     auto remove_supported(VariableDomainMap & unsupported, IntegerVariableID var, vector<Integer> & to_remove) -> void
     {
         vector<Integer> new_unsupported{};
-        auto unsupported_set = set(unsupported[var].begin(), unsupported[var].end());
+        auto current = get_for_actual_var(unsupported, var);
+        auto unsupported_set = set(current.begin(), current.end());
         auto to_remove_set = set(to_remove.begin(), to_remove.end());
         set_difference(unsupported_set, to_remove_set, back_inserter(new_unsupported));
 
-        unsupported[var] = new_unsupported;
+        set_for_actual_var(unsupported, var, new_unsupported);
     }
 
     auto filter_again_and_remove_supported(const TreeEdges & tree, VariableDomainMap & supported_by_tree, VariableDomainMap & unsupported,
@@ -401,11 +402,11 @@ namespace
         for (const auto & entry : tuple) {
             overloaded{
                 [&](const BinaryEntry & binary_entry) {
-                    vars_in_tuple.emplace_back(binary_entry.var_1);
-                    vars_in_tuple.emplace_back(binary_entry.var_2);
-                },                                                                                                //
-                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(unary_set_entry.var); },  //
-                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(unary_val_entry.var); } //
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_1));
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_2));
+                },                                                                                                        //
+                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(deview(unary_set_entry.var)); },  //
+                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(deview(unary_val_entry.var)); } //
             }
                 .visit(entry);
         }
@@ -873,13 +874,20 @@ auto SmartTable::install_propagators(Propagators & propagators) -> void
 
     vector<Forest> forests = build_forests(_tuples);
 
+    // Supports are tracked on the variables underneath any views, so that a
+    // variable which appears in several guises is only considered once.
+    vector<IntegerVariableID> actual_vars;
+    for (const auto & var : _vars)
+        if (auto actual_var = deview(var); 0 == count(actual_vars.begin(), actual_vars.end(), actual_var))
+            actual_vars.push_back(actual_var);
+
     propagators.install(
         constraint_id(),
-        [selectors = _selectors, vars = _vars, tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
+        [selectors = _selectors, vars = _vars, actual_vars = move(actual_vars), tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
             short_reasons = _short_reasons,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             auto reason = eager_reason(generic_reason(vars), state);
-            propagate_using_smart_str(selectors, vars, tuples, forests, state, inference, reason, pb_selectors, logger, short_reasons, owner);
+            propagate_using_smart_str(selectors, actual_vars, tuples, forests, state, inference, reason, pb_selectors, logger, short_reasons, owner);
             return PropagatorState::Enable;
         },
         triggers);
-- 
2.43.0


From 63c536f4a716b4721ab11ebc0994679c1bb71637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 10/61] fix: a linear equality whose terms cancel accepts any
 non-negative total

With no terms left only the less-than-or-equal half was checked, so equalities that became enforced during search, and Power over constants, accepted wrong values.
---
 gcs/constraints/linear/propagate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/linear/propagate.cc b/gcs/constraints/linear/propagate.cc
index 18ecd7a..1a68f2a 100644
--- a/gcs/constraints/linear/propagate.cc
+++ b/gcs/constraints/linear/propagate.cc
@@ -211,7 +211,7 @@ auto gcs::innards::propagate_linear(const auto & coeff_vars, Integer value, cons
     // need to check the empty sum case somewhere, because we only get a contradiction
     // by inferring a specific variable has to take a value that it can't
     if (coeff_vars.terms.empty()) {
-        if (! (0_i <= value)) {
+        if (! (0_i <= value) || (equality && 0_i != value)) {
             inference.contradiction(
                 logger, JustifyUsingRUP{hint}, linear_bounds_reason(inference.want_reasons(), coeff_vars, bounds, nullopt, false, add_to_reason));
         }
-- 
2.43.0


From 201b0c475ce00c3a4b830a0664effc62edfe13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 11/61] fix: all-equal stops propagating before the other
 variables follow a fixed one

---
 gcs/constraints/all_equal/all_equal.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/all_equal/all_equal.cc b/gcs/constraints/all_equal/all_equal.cc
index 23fb22a..37ec1b6 100644
--- a/gcs/constraints/all_equal/all_equal.cc
+++ b/gcs/constraints/all_equal/all_equal.cc
@@ -133,10 +133,14 @@ auto AllEqual::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            // Entailed once any var is single-valued: the chain equalities will
-            // have propagated that value to every other var (or contradicted),
-            // so further calls have nothing to do.
-            if (state.has_single_value(vars[0]))
+            // Entailed once every var is fixed to the same value. One fixed var is
+            // not enough: it may only just have become fixed, and the others are
+            // yet to hear about it.
+            auto value = state.optional_single_value(vars[0]);
+            bool all_fixed = value.has_value();
+            for (size_t i = 1; all_fixed && i < n; ++i)
+                all_fixed = state.optional_single_value(vars[i]) == value;
+            if (all_fixed)
                 return PropagatorState::DisableUntilBacktrack;
 
             return PropagatorState::Enable;
-- 
2.43.0


From bc9f141f65ff6eed2a6c2572f8c46e9263a520bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 12/61] fix: min and max throw when the result is a view of one
 of the variables

---
 gcs/constraints/min_max/min_max.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/min_max/min_max.cc b/gcs/constraints/min_max/min_max.cc
index 870f9f8..ec890dc 100644
--- a/gcs/constraints/min_max/min_max.cc
+++ b/gcs/constraints/min_max/min_max.cc
@@ -144,8 +144,11 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                 }
             }
 
+            // This can only happen if result is a view of one of the vars, and the
+            // values just removed from it took away its own support. The removals
+            // bring us back here.
             if (! support_1)
-                throw UnexpectedException{"missing support, bug in MinMaxArray propagator"};
+                return PropagatorState::Enable;
             else if (! support_2) {
                 // no, there's only a single var left that has any intersection with result. so, that
                 // variable has to lose any values not present in result.
-- 
2.43.0


From f68b3c2621eb56f678e2fb9505327a8e09775ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/61] fix: among over several views of one variable stops
 before its counts are up to date

---
 gcs/constraints/among/among.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 05eb298..3ffb264 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -11,6 +11,8 @@
 #include <gcs/innards/state.hh>
 
 #include <gcs/proof.hh>
+#include <util/overloaded.hh>
+
 #include <version>
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -22,6 +24,7 @@
 #include <algorithm>
 #include <map>
 #include <optional>
+#include <set>
 #include <sstream>
 #include <string>
 #include <tuple>
@@ -34,6 +37,7 @@ using std::make_shared;
 using std::map;
 using std::optional;
 using std::pair;
+using std::set;
 using std::shared_ptr;
 using std::string;
 using std::stringstream;
@@ -115,9 +119,27 @@ auto Among::install_propagators(Propagators & propagators) -> void
             }
         });
 
+    // Deciding one variable usually leaves the others as they were. But if the
+    // same variable appears more than once, perhaps through views, then the
+    // counts which led to the decision may be out of date, so look again.
+    set<IntegerVariableID> seen;
+    bool repeats = false;
+    auto note = [&](const IntegerVariableID & var) {
+        overloaded{
+            [&](const SimpleIntegerVariableID & v) { repeats = (! seen.insert(v).second) || repeats; },                   //
+            [&](const ViewOfIntegerVariableID & v) { repeats = (! seen.insert(v.actual_variable).second) || repeats; }, //
+            [&](const ConstantIntegerVariableID &) {}                                                                    //
+        }
+            .visit(var);
+    };
+    for (const auto & var : _vars)
+        note(var);
+    note(_how_many);
+
     propagators.install(
         constraint_id(),
         [vars = _vars, values_of_interest = _values_of_interest, how_many = _how_many, sum_line = _sum_line, am1_lines = am1_lines,
+            when_decided = repeats ? PropagatorState::Enable : PropagatorState::DisableUntilBacktrack,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             // partition variables to be 1) those that must not match, 2) those that must match, and 3) those
             // where they might match but don't have to.
@@ -236,7 +258,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 // now every variable is set in a way that either must
                 // match or must not match, and the count is fixed, so
                 // we'll never propagate anything again
-                return PropagatorState::DisableUntilBacktrack;
+                return when_decided;
             }
 
             if (must_match_count + can_be_either_count == at_least_how_many) {
@@ -290,7 +312,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                     // now every variable is set in a way that either must
                     // match or must not match, and the count is fixed, so
                     // we'll never propagate anything again
-                    return PropagatorState::DisableUntilBacktrack;
+                    return when_decided;
                 }
             }
 
-- 
2.43.0


From ba398dda52fd6809b0862658d862e4c439c97314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 14/61] fix: global cardinality at domain consistency loses
 solutions when its values are not sorted

---
 gcs/constraints/global_cardinality/global_cardinality.cc | 6 ++----
 gcs/constraints/global_cardinality/global_cardinality.hh | 9 ++++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 09e020b..c3c41ef 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -70,8 +70,7 @@ auto GlobalCardinality::clone() const -> unique_ptr<Constraint>
 {
     auto cloned = make_unique<GlobalCardinality>(_vars, _values, _counts);
     cloned->with_consistency(_level).with_closed(_closed);
-    if (holds_alternative<consistency::BC>(_level))
-        cloned->sort_cover_values();
+    cloned->sort_cover_values();
     return cloned;
 }
 
@@ -121,8 +120,7 @@ auto GlobalCardinality::install_propagators(Propagators & propagators) -> void
     // the disjunction. This is also what lets the GAC propagator hand it the
     // no-cover-value-left case rather than raising an unjustified contradiction.
     if (_closed) {
-        // sort_cover_values() only runs on the BC path, so sort a copy rather
-        // than assume _values is ordered.
+        // clone() sorts _values, but sort a copy rather than assume it here.
         auto sorted_cover = _values;
         sort(sorted_cover);
 
diff --git a/gcs/constraints/global_cardinality/global_cardinality.hh b/gcs/constraints/global_cardinality/global_cardinality.hh
index 0a3d34c..8e277b7 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.hh
+++ b/gcs/constraints/global_cardinality/global_cardinality.hh
@@ -55,11 +55,10 @@ namespace gcs
         virtual auto install_propagators(innards::Propagators &) -> void override;
 
         // The bounds propagator's Hall-interval reasoning ranges over contiguous
-        // runs of the cover values, so under consistency::BC they (and their count
-        // variables) must be in ascending order. Done in clone() rather than a
-        // constructor because the level is chosen post-construction, and both the
-        // stored constraint (which s_expr reads) and its install-time clone (which
-        // define_proof_model reads) must agree.
+        // runs of the cover values, and the GAC propagator binary searches them, so
+        // they (and their count variables) must be in ascending order. Done in
+        // clone() so that both the stored constraint (which s_expr reads) and its
+        // install-time clone (which define_proof_model reads) agree.
         auto sort_cover_values() -> void;
 
     public:
-- 
2.43.0


From ccaac8ecd8616b8107787827dc3dfd7228af25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 15/61] fix: refined watches do not fire in a round in which
 some propagator claimed idempotence

---
 gcs/innards/propagators.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..ba415f2 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -622,12 +622,7 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         // Refined watches: fire any whose literal is now entailed, delivering the
         // payload to its owner and consuming the watch. A watch is only tested when
         // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
@@ -655,19 +650,30 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. Refined watches are not subject to the protection: a
+    // claim says nothing about payloads that have not been delivered yet.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From 50671ca43fb224f1058027f9c68d5d3aafa6da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 16/61] fix: auto-tabulation runs propagators for the first
 time below the root, losing what they set up

---
 gcs/presolvers/auto_table/auto_table.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcs/presolvers/auto_table/auto_table.cc b/gcs/presolvers/auto_table/auto_table.cc
index d0d1041..5e4788e 100644
--- a/gcs/presolvers/auto_table/auto_table.cc
+++ b/gcs/presolvers/auto_table/auto_table.cc
@@ -121,6 +121,12 @@ auto AutoTable::run(Problem & problem, Propagators & propagators, State & initia
     // callback once and reuse it down the subproblem recursion.
     auto branch_callback = branch_with(variable_order::dom_then_deg(_vars), value_order::smallest_first())(problem, initial_state, propagators);
 
+    // Propagate the root before going anywhere below it: some propagators set
+    // themselves up on their first run, and rely upon that happening in the root
+    // epoch, which is never backtracked.
+    if (! propagators.propagate(Literals{}, initial_state, logger))
+        return false;
+
     auto timestamp = initial_state.new_epoch(true);
     initial_state.guess(TrueLiteral{});
 
-- 
2.43.0


From 4a1d317891942e124cfb294d84b1e06681bcc3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 17/61] fix: each_bit keeps a reference to a temporary, so
 proof logging reports missing bits

each_bit is a coroutine, so the variable it is given has to outlive the
iteration. Its callers pass implicitly converted temporaries in a range-based
for, which are only kept alive by compilers implementing P2718. Take the
variable by value instead.
---
 gcs/innards/proofs/names_and_ids_tracker.cc | 2 +-
 gcs/innards/proofs/names_and_ids_tracker.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..1cc4e07 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -672,7 +672,7 @@ auto NamesAndIDsTracker::negative_bit_coefficient(const SimpleOrProofOnlyInteger
     return it->second.first;
 }
 
-auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID & id) -> generator<pair<Integer, XLiteral>>
+auto NamesAndIDsTracker::each_bit(SimpleOrProofOnlyIntegerVariableID id) -> generator<pair<Integer, XLiteral>>
 {
     auto it = _imp->integer_variable_bits_to_size_and_proof_vars.find(id);
     if (it == _imp->integer_variable_bits_to_size_and_proof_vars.end())
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 905f8ed..8b2b30c 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -415,7 +415,7 @@ namespace gcs::innards
          * Call the supplied function for each bit making up the given variable, specifying
          * its raw PB literal and coefficient.
          */
-        auto each_bit(const SimpleOrProofOnlyIntegerVariableID &) -> std::generator<std::pair<Integer, XLiteral>>;
+        auto each_bit(SimpleOrProofOnlyIntegerVariableID) -> std::generator<std::pair<Integer, XLiteral>>;
 
         /**
          * Get the name and coefficient for the bit position in the representation of the given var.
-- 
2.43.0


From 067ac20196273da3668cd3532b740767331a48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 18/61] fix: cumulative with every rule off stays inert for
 derived constraints

The capacity check added for a schedule decided with time-tabling off also ran
when no rule at all was on, which is how derived_cumulative_test silences a
donor.
---
 gcs/constraints/cumulative/cumulative.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index 1fff803..3519365 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -1338,10 +1338,11 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
 
     // Turning time-tabling off gives up its inferences, but a fully decided
     // schedule still has to be checked against the capacity: the overload check
-    // alone does not notice every schedule that does not fit.
-    auto check_profile = rules.time_table || all_of(active_tasks, [&](size_t i) {
+    // alone does not notice every schedule that does not fit. (With every rule
+    // off, nothing is being asked for, and a derived constraint takes over.)
+    auto check_profile = rules.time_table || (rules.overload && all_of(active_tasks, [&](size_t i) {
         return is_absent(i) || (is_present(i) && state.has_single_value(starts[i]) && llb(i) == lub(i) && state.has_single_value(heights_var[i]));
-    });
+    }));
 
     for (auto idx = 0; check_profile && idx < range; ++idx)
         if (mand_load[idx] > capacity) {
-- 
2.43.0


From 33284f2303f7331967810e9942dac6fbd07f3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 19/61] fix: interval sets record a value appended twice as two
 values

insert_at_end documents that the value may be equal to upper(), but appended an
overlapping interval for it, so the set counted and yielded the value twice.
---
 gcs/interval_set.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..68045f2 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -352,6 +352,8 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(value, value);
+            else if (intervals.back().second == value)
+                return;
             else if (intervals.back().second == value - Int_(1))
                 intervals.back().second++;
             else
@@ -372,7 +374,7 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(lower, upper);
-            else if (intervals.back().second == lower - Int_(1))
+            else if (intervals.back().second == lower || intervals.back().second == lower - Int_(1))
                 intervals.back().second = upper;
             else
                 intervals.emplace_back(lower, upper);
-- 
2.43.0


From 75b8c04b45d85c358dffe639a3cdac9d9c6caa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 20/61] fix: values of a negated view are listed in descending
 order, so splits over one may never shrink it

State's each_value and for_each_value functions walked the underlying
domain of a negated view forwards, giving descending values where callers
expect ascending ones: a split value order over a negated view with two or
three values then produced a branch keeping every value, and smallest first
tried the largest value first.
---
 gcs/innards/state.cc | 34 +++++++++++++++++++++-------------
 gcs/innards/state.hh | 21 +++++++++++++++++++--
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/gcs/innards/state.cc b/gcs/innards/state.cc
index ba0f41a..aecf30d 100644
--- a/gcs/innards/state.cc
+++ b/gcs/innards/state.cc
@@ -629,15 +629,21 @@ auto State::domains_intersect(const IntegerVariableID & var1, const IntegerVaria
 
 namespace
 {
-    auto each_value_generator(IntervalSet<Integer> set, std::function<auto(Integer)->Integer> apply) -> generator<Integer>
+    auto each_value_generator(IntervalSet<Integer> set, bool negate_first, Integer then_add) -> generator<Integer>
     {
-        for (auto i : set.each())
-            co_yield apply(i);
+        // Negation reverses the order, and the values of a view come in
+        // ascending order like those of any other variable.
+        if (negate_first)
+            for (auto i : set.each_reversed())
+                co_yield -i + then_add;
+        else
+            for (auto i : set.each())
+                co_yield i + then_add;
     }
 
-    auto each_value_constant_generator(Integer val, std::function<auto(Integer)->Integer> apply) -> generator<Integer>
+    auto each_value_constant_generator(Integer val, bool negate_first, Integer then_add) -> generator<Integer>
     {
-        co_yield apply(val);
+        co_yield apply_view(val, negate_first, then_add);
     }
 }
 
@@ -646,11 +652,12 @@ auto State::each_value_immutable(const VarType_ & var) const -> generator<Intege
 {
     auto [actual_var, negate_first, then_add] = deview(var);
 
-    auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
-
     return visit_actual(
-        actual_var, [&](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), apply); },
-        [&](const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, apply); });
+        actual_var,
+        [&, negate_first = negate_first, then_add = then_add](
+            const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), negate_first, then_add); },
+        [&, negate_first = negate_first, then_add = then_add](
+            const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, negate_first, then_add); });
 }
 
 template <IntegerVariableIDLike VarType_>
@@ -658,11 +665,12 @@ auto State::each_value_mutable(const VarType_ & var) const -> generator<Integer>
 {
     auto [actual_var, negate_first, then_add] = deview(var);
 
-    auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
-
     return visit_actual(
-        actual_var, [&](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), apply); },
-        [&](const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, apply); });
+        actual_var,
+        [&, negate_first = negate_first, then_add = then_add](
+            const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), negate_first, then_add); },
+        [&, negate_first = negate_first, then_add = then_add](
+            const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, negate_first, then_add); });
 }
 
 auto State::operator()(const IntegerVariableID & i) const -> Integer
diff --git a/gcs/innards/state.hh b/gcs/innards/state.hh
index 29359f8..715a14d 100644
--- a/gcs/innards/state.hh
+++ b/gcs/innards/state.hh
@@ -14,6 +14,7 @@
 #include <memory>
 #include <optional>
 #include <tuple>
+#include <type_traits>
 #include <version>
 
 #ifdef __cpp_lib_generator
@@ -104,6 +105,22 @@ namespace gcs::innards
             return (negate_first ? -v : v) + then_add;
         }
 
+        // Calls cb for each value of a view over the given domain, in ascending
+        // order of the view's values: negation reverses the order of the domain.
+        template <typename Callback_>
+        auto for_each_view_value(const IntervalSet<Integer> & set, bool negate_first, Integer then_add, Callback_ && cb) -> void
+        {
+            if (! negate_first)
+                set.for_each([&](Integer i) { return cb(i + then_add); });
+            else
+                for (Integer i : set.each_reversed()) {
+                    if constexpr (std::is_void_v<std::invoke_result_t<Callback_ &, Integer>>)
+                        cb(-i + then_add);
+                    else if (! cb(-i + then_add))
+                        return;
+                }
+        }
+
         template <typename SimpleFn_, typename ConstantFn_>
         auto visit_actual(const SimpleIntegerVariableID & v, SimpleFn_ && sf, ConstantFn_ &&) -> decltype(sf(v))
         {
@@ -433,7 +450,7 @@ namespace gcs::innards
             state_detail::visit_actual(
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
-                    state_of_for_iteration(v).for_each([&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); });
+                    state_detail::for_each_view_value(state_of_for_iteration(v), negate_first, then_add, cb);
                 },
                 [&, negate_first = negate_first, then_add = then_add](
                     const ConstantIntegerVariableID & v) { cb(state_detail::apply_view(v.const_value, negate_first, then_add)); });
@@ -455,7 +472,7 @@ namespace gcs::innards
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
                     auto snapshot = state_of_for_iteration(v);
-                    snapshot.for_each([&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); });
+                    state_detail::for_each_view_value(snapshot, negate_first, then_add, cb);
                 },
                 [&, negate_first = negate_first, then_add = then_add](
                     const ConstantIntegerVariableID & v) { cb(state_detail::apply_view(v.const_value, negate_first, then_add)); });
-- 
2.43.0


From fb7b4d18f0505d80570fae748f9891b8c321eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 21/61] fix: optimisation proofs read the bounds of an
 objective wiped out before search

---
 gcs/solve.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/solve.cc b/gcs/solve.cc
index 756cfec..817b942 100644
--- a/gcs/solve.cc
+++ b/gcs/solve.cc
@@ -371,8 +371,10 @@ auto gcs::solve_with(
         }
     }
 
+    // Only if we are going to search: a contradiction whilst initialising or
+    // presolving can leave the objective with no values, and so no bound.
     Integer objective_lower_bound_for_proof = 0_i;
-    if (optional_proof && problem.optional_minimise_variable())
+    if (optional_proof && initialisation_success && presolve_success && problem.optional_minimise_variable())
         objective_lower_bound_for_proof = state.lower_bound(*problem.optional_minimise_variable());
 
     if (initialisation_success && presolve_success) {
-- 
2.43.0


From f94a0eb51d6c44c01e4ea34156e6b793f70175d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 22/61] fix: the objective of a maximisation is written over
 different bits once a constraint uses the negation

The OPB objective row for a plain negation is over the underlying variable's
bits, but the solution-improving line was written over the view's own bits if
a constraint had registered that view in the meantime.
---
 gcs/innards/proofs/proof_logger.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index f9d4520..16d475b 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -40,11 +40,13 @@ using fmt::format;
 #include <util/overloaded.hh>
 
 using std::cmp_less_equal;
+using std::decay_t;
 using std::deque;
 using std::flush;
 using std::fstream;
 using std::ios;
 using std::ios_base;
+using std::is_same_v;
 using std::make_unique;
 using std::map;
 using std::optional;
@@ -309,8 +311,17 @@ auto ProofLogger::solution(const vector<pair<IntegerVariableID, Integer>> & all_
         // normal soli, emit e line for trimmer
         visit(
             [&](const auto & id) {
+                // This has to be the same constraint that the objective row of the
+                // OPB gives rise to, and that row is written over the underlying
+                // variable for a plain negation (see ProofModel::write_preamble()),
+                // even if a constraint registers the view later on.
+                auto improving = WPBSum{} + 1_i * id;
+                if constexpr (is_same_v<decay_t<decltype(id)>, ViewOfIntegerVariableID>)
+                    if (id.negate_first && id.then_add == 0_i)
+                        improving = WPBSum{} + -1_i * id.actual_variable;
+
                 _imp->proof << "e ";
-                emit_inequality_to(names_and_ids_tracker(), WPBSum{} + 1_i * id <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
+                emit_inequality_to(names_and_ids_tracker(), move(improving) <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
                 _imp->proof << ":" << relative_proof_line(_imp->proof_line, _imp->proof_line.number) << ";\n";
 
                 emit_rup_proof_line(WPBSum{} + 1_i * (id < optional_minimise_variable_and_value->second) >= 1_i, ProofLevel::Top);
-- 
2.43.0


From ff7f1f7a866516c8ebac70239a32728f1ca9f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 23/61] fix: reification halves of flags are labelled
 inconsistently with verbose names off

With verbose names off, add_two_way_reified_constraint labelled its halves by
the flag's terse name, whilst create_proof_flag_fully_reifying used the long
one, so flag bridges cited labels that do not exist.
---
 gcs/innards/proofs/flag_bridge.cc           | 4 ++--
 gcs/innards/proofs/names_and_ids_tracker.cc | 8 ++++++++
 gcs/innards/proofs/names_and_ids_tracker.hh | 8 ++++++++
 gcs/innards/proofs/proof_model.cc           | 7 ++++---
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/gcs/innards/proofs/flag_bridge.cc b/gcs/innards/proofs/flag_bridge.cc
index d69fa0e..199c27a 100644
--- a/gcs/innards/proofs/flag_bridge.cc
+++ b/gcs/innards/proofs/flag_bridge.cc
@@ -25,7 +25,7 @@ namespace
     // them: `[r]` is `flag -> ineq` and `[f]` is `ineq -> flag`. The names read
     // backwards, which is ProofModel's doing and not worth diverging from here.
     //
-    // Built from the flag's full PB rendering rather than from name_of, which
+    // Built from the flag's full rendering rather than from name_of, which
     // for a flag made from a plain stem returns just that stem and would name
     // the wrong row --- or none. ProofModel labels these halves the same way,
     // and says so where it does it.
@@ -33,7 +33,7 @@ namespace
     {
         if (! flag.positive)
             throw ProofError{"flag bridge: bridging a negated flag, whose reification halves are labelled under the positive one"};
-        return tracker.pb_file_string_for(flag);
+        return tracker.label_base_of(flag);
     }
 
     [[nodiscard]] auto implies_condition(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> ProofLineLabel
diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index 1cc4e07..e87321d 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -370,6 +370,8 @@ struct NamesAndIDsTracker::Imp
     // naming modes, so rendering a literal is an index, not a lookup.
     vector<string> xlit_names;
     map<ProofFlag, string> flag_names;
+    // What the flag is called with verbose names on, whether or not they are.
+    map<ProofFlag, string> flag_label_bases;
 
     list<function<auto(ProofLogger * const)->void>> delayed_proof_steps;
 
@@ -2032,6 +2034,7 @@ auto NamesAndIDsTracker::allocate_xliteral_meaning(SimpleOrProofOnlyIntegerVaria
 auto NamesAndIDsTracker::allocate_flag_xliteral(ProofFlag flag, const string & verbose_name) -> XLiteral
 {
     auto result = XLiteral{++_imp->next_xliteral_nr, false};
+    _imp->flag_label_bases.emplace(flag, verbose_name);
 
     if (_imp->verbose_names) {
         store_xlit_names(result, verbose_name);
@@ -2174,6 +2177,11 @@ auto NamesAndIDsTracker::name_of(ProofFlag id) const -> const string &
     return _imp->flag_names.at(id);
 }
 
+auto NamesAndIDsTracker::label_base_of(ProofFlag id) const -> const string &
+{
+    return _imp->flag_label_bases.at(id);
+}
+
 auto NamesAndIDsTracker::s_expr_name_of(IntegerVariableID id) const -> string
 {
     return overloaded{
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 8b2b30c..681b613 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -820,6 +820,14 @@ namespace gcs::innards
          * Get the human-readable name for a variable.
          */
         [[nodiscard]] auto name_of(ProofFlag id) const -> const std::string &;
+
+        /**
+         * Get what the labels of a flag's defining constraints start with: the
+         * flag's full rendering under verbose names. Labels are the same whether
+         * or not verbose names are on, so this is not what
+         * pb_file_string_for() gives when they are off.
+         */
+        [[nodiscard]] auto label_base_of(ProofFlag id) const -> const std::string &;
     };
 }
 
diff --git a/gcs/innards/proofs/proof_model.cc b/gcs/innards/proofs/proof_model.cc
index a30f3db..5b04339 100644
--- a/gcs/innards/proofs/proof_model.cc
+++ b/gcs/innards/proofs/proof_model.cc
@@ -301,10 +301,11 @@ auto ProofModel::add_two_way_reified_constraint(const WPBSumLE & ineq, const Pro
     // so callers reference the halves by @label, never by line number, and for a
     // cake-named flag (x[id][..] / v[id][..]) the labels match cake_pb_cp. Mirrors
     // the manual labelling in create_proof_flag_fully_reifying(ConstraintID, ...).
-    // Use the flag's full PB rendering (e.g. f[3][sort_before] or x[id][i_j][bf]),
+    // Use the flag's full rendering (e.g. f[3][sort_before] or x[id][i_j][bf]),
     // not name_of, whose plain-flag form is the bare stem and would collide across
-    // flags sharing it.
-    auto base = names_and_ids_tracker().pb_file_string_for(flag);
+    // flags sharing it, nor its name in the file, which is not this (and not the
+    // other halves' convention) when verbose names are off.
+    auto base = names_and_ids_tracker().label_base_of(flag);
     auto forward = add_labelled_constraint(base + "[r]", ineq, HalfReifyOnConjunctionOf{{flag}});
     names_and_ids_tracker().derive_deviewed_form_for(forward, ineq.lhs, /*le_half=*/true);
     auto reverse_ineq = negate_inequality(ineq);
-- 
2.43.0


From 3720c181e8aa64ac46ff8818f88458fad6367e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 24/61] fix: proofs of two ArgSort constraints in one model
 share the names of their internal variables

---
 gcs/constraints/sort/arg_sort.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/sort/arg_sort.cc b/gcs/constraints/sort/arg_sort.cc
index 9d81d59..03720f8 100644
--- a/gcs/constraints/sort/arg_sort.cc
+++ b/gcs/constraints/sort/arg_sort.cc
@@ -128,7 +128,7 @@ auto ArgSort::define_proof_model(ProofModel & model, const State &) -> void
     // match, so the in-proof introduction of y's atoms lines up with cake's.
     vector<IntegerVariableID> y_ids{_y.begin(), _y.end()};
     for (size_t j = 0; j < _y.size(); ++j)
-        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(j), IntegerVariableProofRepresentation::Bits,
+        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(_y[j].index), IntegerVariableProofRepresentation::Bits,
             CakeBitNaming{.id = _constraint_id,
                 .indices = {static_cast<long long>(j)},
                 .value_annotation = "y",
-- 
2.43.0


From 72f9ace47a0b198ae25eb445d2b04d21a99cce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 25/61] fix: RegularLegacy eliminates automaton states in an
 order its proof steps do not follow

---
 gcs/constraints/regular/regular_legacy.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/regular/regular_legacy.cc b/gcs/constraints/regular/regular_legacy.cc
index c119ac6..c5b8d7f 100644
--- a/gcs/constraints/regular/regular_legacy.cc
+++ b/gcs/constraints/regular/regular_legacy.cc
@@ -223,6 +223,9 @@ namespace
     {
         graph.out_deg[i][k]--;
         if (graph.out_deg[i][k] == 0 && i > 0) {
+            // Eliminate this node first: the predecessors' eliminations rely upon it.
+            if (logger && logger->get_assertion_level() == AssertionLevel::Off)
+                log_additional_inference(logger, {}, {! state_at_pos_flags[i][k]}, state, reason, "dec outdeg");
             for (const auto & edge : graph.in_edges[i][k]) {
                 auto l = edge.first;
                 graph.out_edges[i - 1][l].erase(k);
@@ -240,8 +243,6 @@ namespace
                 }
             }
             graph.in_edges[i][k] = {};
-            if (logger && logger->get_assertion_level() == AssertionLevel::Off)
-                log_additional_inference(logger, {}, {! state_at_pos_flags[i][k]}, state, reason, "dec outdeg");
         }
     }
 
@@ -254,9 +255,9 @@ namespace
                 // Again, want to eliminate this node i.e. prove !state[i][k]
                 for (const auto & q : graph.nodes[i - 1]) {
                     // So first eliminate each previous state/variable combo
-                    for (auto val : state.each_value_mutable(vars[i])) {
+                    for (auto val : state.each_value_mutable(vars[i - 1])) {
                         log_additional_inference(
-                            logger, {vars[i] != val}, {! state_at_pos_flags[i - 1][q], ! state_at_pos_flags[i][k]}, state, reason);
+                            logger, {vars[i - 1] != val}, {! state_at_pos_flags[i - 1][q], ! state_at_pos_flags[i][k]}, state, reason);
                     }
 
                     // Then eliminate each previous state
-- 
2.43.0


From 137eed2bfd7f3c9668c06158336794fb81959519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 26/61] fix: RegularBacchus proofs omit dead states and mix two
 names for a view's values

---
 gcs/constraints/regular/regular_bacchus.cc | 75 ++++++++--------------
 1 file changed, 25 insertions(+), 50 deletions(-)

diff --git a/gcs/constraints/regular/regular_bacchus.cc b/gcs/constraints/regular/regular_bacchus.cc
index 1715480..1293b85 100644
--- a/gcs/constraints/regular/regular_bacchus.cc
+++ b/gcs/constraints/regular/regular_bacchus.cc
@@ -220,11 +220,6 @@ struct RegularBacchus::Bridge
     // (and so could be dropped after the initialiser runs, but we keep it
     // attached to the bridge for symmetry with the rest of the codebase).
     vector<vector<unordered_map<Integer, ProofFlag>>> t_flags;
-    // OPB-time line numbers needed for the initialiser's pol-derivations:
-    //   forward_chain_lines[i][q][val] = the line of
-    //     `~state[i][q] + (vars[i]!=val) + state[i+1][delta(q,val)] >= 1`
-    //   (only present where delta(q,val) is defined).
-    vector<vector<unordered_map<Integer, ProofLine>>> forward_chain_lines;
 };
 
 RegularBacchus::RegularBacchus(vector<IntegerVariableID> v, long n, vector<unordered_map<Integer, long>> t, vector<long> f, bool sr) :
@@ -293,8 +288,6 @@ auto RegularBacchus::define_proof_model(ProofModel & model, const State &) -> vo
         pos_n_states += 1_i * flags[_vars.size()][f];
     model.add_constraint(move(pos_n_states) >= 1_i);
 
-    auto & fwd_lines = _bridge->forward_chain_lines;
-    fwd_lines.assign(_vars.size(), vector<unordered_map<Integer, ProofLine>>(_num_states));
     for (size_t idx = 0; idx < _vars.size(); ++idx) {
         for (long q = 0; q < _num_states; ++q) {
             for (const auto & val : _opb_alphabet) {
@@ -303,12 +296,8 @@ auto RegularBacchus::define_proof_model(ProofModel & model, const State &) -> vo
                     model.add_constraint(WPBSum{} + 1_i * (_vars[idx] != val) + 1_i * ! flags[idx][q] >= 1_i);
                 }
                 else {
-                    // Capture the forward-chain line number for the initialiser's
-                    // pol-derivations. add_constraint returns void now, so the
-                    // labelled overload is how we get a referenceable ProofLine.
-                    auto line = model.add_labelled_constraint(constraint_id(), format("fwd{}q{}v{}", idx, q, val.raw_value),
+                    model.add_labelled_constraint(constraint_id(), format("fwd{}q{}v{}", idx, q, val.raw_value),
                         WPBSum{} + 1_i * ! flags[idx][q] + 1_i * (_vars[idx] != val) + 1_i * flags[idx + 1][new_q] >= 1_i);
-                    fwd_lines[idx][q].emplace(val, line);
                 }
             }
         }
@@ -323,68 +312,60 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
     // One-shot Bacchus scaffolding at search root.
     //   1. t-flags via redundance, fully reifying
     //      t[i][q][v] <=> (vars[i]=v AND state[i]=q AND state[i+1]=delta(q,v)).
-    //   2. For each (i, q, v in dom_q): pol(forward_chain + reverse_t_def)
-    //      to derive the per-(q,v) intermediate the AL1 RUPs need.
+    //   2. For each (i, q, v in dom_q): RUP the per-(q,v) intermediate the
+    //      AL1 RUPs need.
     //   3. Outgoing AL1, incoming AL1, variable-support AL1 via RUP.
     //
     // With those at ProofLevel::Top, every per-call value-pruning the
     // propagator decides becomes RUP-closable purely by UP on the proof DB,
     // so the propagator uses NoJustificationNeeded and writes no proof.
-    propagators.install_initialiser([vars = _vars, ns = _num_states, t = _transitions, alphabet = _opb_alphabet, bridge = _bridge](
-                                        State &, auto &, ProofLogger * const logger) -> void {
+    propagators.install_initialiser([vars = _vars, ns = _num_states, t = _transitions, final_states = _final_states, alphabet = _opb_alphabet,
+                                        bridge = _bridge](State &, auto &, ProofLogger * const logger) -> void {
         if (! logger)
             return;
 
         auto & ts = bridge->t_flags;
         auto & flags = bridge->state_at_pos_flags;
-        const auto & fwd_lines = bridge->forward_chain_lines;
         ts.assign(vars.size(), vector<unordered_map<Integer, ProofFlag>>(ns));
 
-        // Reverse t-def line numbers, indexed by (i, q, val). Used for
-        // the per-(q,v) pol steps below.
-        vector<vector<unordered_map<Integer, ProofLine>>> rev_tdef_lines(vars.size(), vector<unordered_map<Integer, ProofLine>>(ns));
-
         for (size_t i = 0; i < vars.size(); ++i) {
             for (long q = 0; q < ns; ++q) {
                 for (const auto & val : alphabet) {
                     auto new_q = find_transition(t[q], val);
                     if (new_q == -1)
                         continue;
-                    auto [tflag, _f, rev] =
+                    auto [tflag, _f, _r] =
                         logger->create_proof_flag_reifying(WPBSum{} + 1_i * (vars[i] == val) + 1_i * flags[i][q] + 1_i * flags[i + 1][new_q] >= 3_i,
                             format("t{}q{}v{}", i, q, val.raw_value), ProofLevel::Top);
                     ts[i][q].emplace(val, tflag);
-                    rev_tdef_lines[i][q].emplace(val, rev);
                 }
             }
         }
 
-        // Per-(i, q, v) pol step: sum the OPB forward chain
+        // Per-(i, q, v) step: the OPB forward chain
         //   ~state[i][q] + ~vars=v + state[i+1][delta(q,v)] >= 1
         // with the t-def reverse line
         //   t[i][q][v] + ~vars=v + ~state[i][q] + ~state[i+1][delta(q,v)] >= 1
-        // to derive
-        //   2*~state[i][q] + 2*~vars=v + state[i+1][delta(q,v)] + ~state[i+1][delta(q,v)] + t[i][q][v] >= 2.
-        // VeriPB's UP cancels the complementary state[i+1][delta]/~state[i+1][delta]
-        // pair when checking the AL1 RUPs below, so the per-(q,v) line is
-        // what unlocks them.
-        for (size_t i = 0; i < vars.size(); ++i) {
-            for (long q = 0; q < ns; ++q) {
-                for (const auto & [val, _tflag] : ts[i][q]) {
-                    auto fwd_it = fwd_lines[i][q].find(val);
-                    auto rev_it = rev_tdef_lines[i][q].find(val);
-                    if (fwd_it == fwd_lines[i][q].end() || rev_it == rev_tdef_lines[i][q].end())
-                        continue;
-                    PolBuilder{}.add(fwd_it->second).add(rev_it->second).emit(*logger, ProofLevel::Top);
-                }
-            }
-        }
+        // give
+        //   ~state[i][q] + ~vars=v + t[i][q][v] >= 1
+        // which is what unlocks the AL1 RUPs below. This is a RUP step and not
+        // the sum of the two lines because the literal for vars=v in the OPB
+        // need not be the one in the t-def: another constraint can have given
+        // a view its own proof variable in between.
+        for (size_t i = 0; i < vars.size(); ++i)
+            for (long q = 0; q < ns; ++q)
+                for (const auto & [val, tflag] : ts[i][q])
+                    logger->emit_rup_proof_line(WPBSum{} + 1_i * ! flags[i][q] + 1_i * (vars[i] != val) + 1_i * tflag >= 1_i, ProofLevel::Top);
+
+        // Nothing non-final at the end. That some final state holds and at most
+        // one state does only says this by a failed literal, not by UP.
+        for (long q = 0; q < ns; ++q)
+            if (std::find(final_states.begin(), final_states.end(), q) == final_states.end())
+                logger->emit_rup_proof_line(WPBSum{} + 1_i * ! flags[vars.size()][q] >= 1_i, ProofLevel::Top);
 
         // Outgoing AL1: state[i][q] -> sum_{v: delta(q,v) def} t[i][q][v] >= 1.
         for (size_t i = 0; i < vars.size(); ++i) {
             for (long q = 0; q < ns; ++q) {
-                if (ts[i][q].empty())
-                    continue;
                 WPBSum sum;
                 sum += 1_i * ! flags[i][q];
                 for (const auto & [val, tf] : ts[i][q])
@@ -398,17 +379,14 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (long next_q = 0; next_q < ns; ++next_q) {
                 WPBSum sum;
                 sum += 1_i * ! flags[i + 1][next_q];
-                bool any = false;
                 for (long p = 0; p < ns; ++p) {
                     for (const auto & [val, tf] : ts[i][p]) {
                         if (find_transition(t[p], val) == next_q) {
                             sum += 1_i * tf;
-                            any = true;
                         }
                     }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
 
@@ -417,16 +395,13 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (const auto & val : alphabet) {
                 WPBSum sum;
                 sum += 1_i * (vars[i] != val);
-                bool any = false;
                 for (long q = 0; q < ns; ++q) {
                     auto it = ts[i][q].find(val);
                     if (it != ts[i][q].end()) {
                         sum += 1_i * it->second;
-                        any = true;
                     }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
     });
-- 
2.43.0


From c61f5de80a383d76721736a4cf8809e77183884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 27/61] fix: Circuit follows a chain into a loop it never
 leaves when a variable's view is also a successor

---
 gcs/constraints/circuit/circuit_base.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcs/constraints/circuit/circuit_base.cc b/gcs/constraints/circuit/circuit_base.cc
index 4d58fc3..875e5d4 100644
--- a/gcs/constraints/circuit/circuit_base.cc
+++ b/gcs/constraints/circuit/circuit_base.cc
@@ -96,6 +96,11 @@ auto gcs::innards::circuit::prevent_small_cycles(const vector<IntegerVariableID>
                             output_cycle_to_proof(succ, j0, length, pos_var_data, state, *logger);
                         inference.contradiction(logger, JustifyUsingRUP{hints::Circuit{owner}}, generic_reason(succ));
                     }
+                    // And the chain might run into a loop that j0 is not part of, if
+                    // fixing one variable has fixed another to the same value. Such a
+                    // loop never ends, and that is for alldiff to contradict, not us.
+                    if (std::cmp_greater(length, n))
+                        return;
                 } while (state.has_single_value(succ[j]));
                 end[j0] = j;
                 known_ends.emplace_back(j0);
-- 
2.43.0


From c4b52109cdbf3e2a7b5f544c6b092328b8c63592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 28/61] fix: RegularLegacy proofs never rule out ending in a
 state that is not final

---
 gcs/constraints/regular/regular_legacy.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcs/constraints/regular/regular_legacy.cc b/gcs/constraints/regular/regular_legacy.cc
index c5b8d7f..475b89a 100644
--- a/gcs/constraints/regular/regular_legacy.cc
+++ b/gcs/constraints/regular/regular_legacy.cc
@@ -164,6 +164,13 @@ namespace
                 possible_final_states.insert(f);
         }
 
+        // Ending in a state that is not final is only a failed literal away when
+        // there are several final states, and an NFA's back pass needs it as a unit.
+        if (logger && logger->get_assertion_level() == AssertionLevel::Off)
+            for (const auto & q : graph.nodes[num_vars])
+                if (! possible_final_states.contains(q))
+                    log_additional_inference(logger, {}, {! state_at_pos_flags[num_vars][q]}, state, reason);
+
         graph.nodes[num_vars] = possible_final_states;
 
         // Backward phase: validate
-- 
2.43.0


From 869010fed4f95fd6e39a78c5d27067657fa537ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 29/61] fix: a donor row with a variable capacity keeps the
 atom of an upper bound that fills its bits

---
 gcs/constraints/cumulative/donor_view.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/cumulative/donor_view.cc b/gcs/constraints/cumulative/donor_view.cc
index 0cca843..120a751 100644
--- a/gcs/constraints/cumulative/donor_view.cc
+++ b/gcs/constraints/cumulative/donor_view.cc
@@ -19,6 +19,7 @@ using namespace gcs;
 using namespace gcs::innards;
 
 using std::make_optional;
+using std::max;
 using std::move;
 using std::nullopt;
 using std::optional;
@@ -287,7 +288,9 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         // capacity encoded up to bit 62 makes the doubling the first thing that
         // does not fit, where the sum below reaches at most the largest value
         // the encoding can express and so at most what a bit vector holds.
-        auto atom_coefficient = (highest_bit - 1_i - view.capacity) + highest_bit;
+        // A definition never writes its atom with a coefficient below one, even
+        // where the bits alone cannot exceed the bound.
+        auto atom_coefficient = max(1_i, (highest_bit - 1_i - view.capacity) + highest_bit);
 
         // The definition, which is what brings the capacity's bits over to
         // cancel against the row's, and what leaves the atom behind.
@@ -309,8 +312,7 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         if (! atom_is_false)
             atom_is_false = logger.emit_rup_proof_line(WPBSum{} + 1_i * capacity_at_most >= 1_i, ProofLevel::Temporary);
 
-        if (atom_coefficient > 0_i)
-            reduced.add(*atom_is_false, atom_coefficient);
+        reduced.add(*atom_is_false, atom_coefficient);
     }
 
     for (const auto & flag : weaken_out)
-- 
2.43.0


From 56fab21fab3dc3d8c43ac54e655ac567da252ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 30/61] fix: the elastic overload check totals bounds that an
 earlier push of the same sweep has moved

---
 gcs/constraints/cumulative/cumulative.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index 3519365..25da9bc 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -52,6 +52,7 @@ using std::uint64_t;
 using std::unique_ptr;
 using std::vector;
 using std::ranges::all_of;
+using std::ranges::any_of;
 using std::ranges::fill;
 using std::ranges::find;
 using std::ranges::none_of;
@@ -1936,7 +1937,17 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                 // because it dominates neither: whatever (TTOC) detects, this
                 // detects too. What that buys is the cheaper certificate
                 // wherever the cheaper rule was enough.
-                if (elastic_rules && ! inside_tasks.empty() && energy + outside_profile <= supply) {
+                //
+                // Not once a push in this sweep has moved a start: the certificate
+                // reads the bounds the state has now, and the comparison was
+                // totted up from the ones the sweep was set up with. The push has
+                // queued this propagator again, and that run sees both the same.
+                auto starts_have_moved = [&]() {
+                    return any_of(candidates, [&](const Candidate & c) {
+                        return state.bounds(starts[c.task]) != pair{c.est, c.lct - c.length};
+                    });
+                };
+                if (elastic_rules && ! inside_tasks.empty() && energy + outside_profile <= supply && ! starts_have_moved()) {
                     auto required = energy - inside_mandatory;
 
                     // What each time point supplies with and without the
-- 
2.43.0


From 7bf9bf30fef2ada7c9e9e45dde1a4b6d3984905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 31/61] fix: smart table inferences asserted without their
 reason

With an assertion level set, the values a smart table rules out were logged as
unconditional facts: the inference was given no reason, so an assertion made
below a guess claimed to hold at the root and ruled out genuine solutions.
---
 gcs/constraints/smart_table/smart_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 9a29a75..46e226b 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -534,7 +534,7 @@ namespace
         else {
             for (const auto & var : vars) {
                 for (const auto & value : unsupported[var]) {
-                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, NoReason{});
+                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, reason);
                 }
             }
         }
-- 
2.43.0


From 8661c4db6643c25c2ba81a9f8a0b588b69a41144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 32/61] fix: name literals over a view registered later in the
 same sum

A constraint whose sum mentions a literal over a view before the view's own
bits registers the view after naming that literal, which then simplifies to an
atom nobody has introduced. need_view backfills such atoms only up to
AssertionLevel::Links, so above that writing the model threw 'can't find
literals for cond'.
---
 gcs/innards/proofs/names_and_ids_tracker.cc | 30 ++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index e87321d..5c298e6 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -611,17 +611,20 @@ auto NamesAndIDsTracker::need_proof_name(const VariableConditionFrom<SimpleOrPro
 
 auto NamesAndIDsTracker::need_all_proof_names_in(const SumOf<Weighted<PseudoBooleanTerm>> & sum) -> void
 {
+    auto need_name_of = [&](const ProofLiteral & lit) {
+        overloaded{
+            [&](const TrueLiteral &) {},                                                        //
+            [&](const FalseLiteral &) {},                                                       //
+            [&]<typename T_>(const VariableConditionFrom<T_> & cond) { need_proof_name(cond); } //
+        }
+            .visit(simplify_literal(*this, lit));
+    };
+
+    auto views_known_before = _imp->view_proof_only_vars.size();
     for (auto & [_, v] : sum.terms)
         overloaded{
-            [&](const ProofLiteral & lit) {
-                overloaded{
-                    [&](const TrueLiteral &) {},                                                        //
-                    [&](const FalseLiteral &) {},                                                       //
-                    [&]<typename T_>(const VariableConditionFrom<T_> & cond) { need_proof_name(cond); } //
-                }
-                    .visit(simplify_literal(*this, lit));
-            },                         //
-            [&](const ProofFlag &) {}, //
+            [&](const ProofLiteral & lit) { need_name_of(lit); }, //
+            [&](const ProofFlag &) {},                            //
             [&](const IntegerVariableID & var) {
                 // Opportunistically register view bit vectors during model
                 // writing. need_view can only introduce a view while the
@@ -635,6 +638,15 @@ auto NamesAndIDsTracker::need_all_proof_names_in(const SumOf<Weighted<PseudoBool
             [&](const ProofBitVariable &) {}                  //
         }
             .visit(v);
+
+    // A view registered part way through changes what a literal over it that
+    // came earlier in the sum simplifies to, so such literals need their (new)
+    // names as well. Up to AssertionLevel::Links, need_view has already
+    // introduced these while backfilling its atoms.
+    if (_imp->view_proof_only_vars.size() != views_known_before)
+        for (auto & [_, v] : sum.terms)
+            if (auto lit = std::get_if<ProofLiteral>(&v))
+                need_name_of(*lit);
 }
 
 auto NamesAndIDsTracker::need_all_proof_names_in(const Literals & lits) -> void
-- 
2.43.0


From cac2970a79a8f7c38290231d3cabe5afa7b69235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 33/61] fix: dzn reader dropped a last list entry that was out
 of range or only a sign

---
 examples/dzn.hh | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/examples/dzn.hh b/examples/dzn.hh
index 624214b..f083446 100644
--- a/examples/dzn.hh
+++ b/examples/dzn.hh
@@ -80,16 +80,20 @@ namespace dzn
                 if (c == ',')
                     c = ' ';
 
+            // One entry at a time, each of which has to be used up whole.
+            // Extracting straight from the list until it fails cannot tell its
+            // end from a last entry that is out of range, or is only a sign:
+            // both set eofbit too, and the entry would be silently dropped.
             std::vector<long long> result;
             std::istringstream in{separated};
-            long long value = 0;
-            while (in >> value)
+            std::string token;
+            while (in >> token) {
+                std::istringstream entry{token};
+                long long value = 0;
+                if (! (entry >> value) || entry.peek() != std::istringstream::traits_type::eof())
+                    _bad(name, "has a non-integer " + what + ": '" + text + "'");
                 result.push_back(value);
-            // Reading to the end sets eofbit as well as failbit; stopping on
-            // something else sets only failbit, and that something else is what
-            // has to be complained about rather than ignored.
-            if (! in.eof())
-                _bad(name, "has a non-integer " + what + ": '" + text + "'");
+            }
             return result;
         }
 
-- 
2.43.0


From 84e17daecc4296869a8d2b8f1951e2fc2ab095d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 34/61] fix: RCPSP readers truncated task counts and indices to
 int before checking their range

---
 examples/rcpsp/rcpsp_instance.hh | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/examples/rcpsp/rcpsp_instance.hh b/examples/rcpsp/rcpsp_instance.hh
index 62d3fc6..bc077d0 100644
--- a/examples/rcpsp/rcpsp_instance.hh
+++ b/examples/rcpsp/rcpsp_instance.hh
@@ -595,8 +595,12 @@ namespace rcpsp
                 throw std::runtime_error{"malformed .sch file: implausible successor count"};
             std::vector<int> targets;
             targets.reserve(static_cast<std::size_t>(successors));
-            for (long long s = 0; s != successors; ++s)
-                targets.push_back(static_cast<int>(next("a successor index")));
+            for (long long s = 0; s != successors; ++s) {
+                auto target = next("a successor index");
+                if (target < 0 || target >= inst.n_tasks)
+                    throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
+                targets.push_back(static_cast<int>(target));
+            }
             for (long long s = 0; s != successors; ++s)
                 inst.lags.push_back(Lag{static_cast<int>(i), targets[static_cast<std::size_t>(s)], gcs::Integer{next("an arc weight")}});
         }
@@ -614,9 +618,6 @@ namespace rcpsp
         for (std::size_t k = 0; k != um; ++k)
             inst.capacities.push_back(gcs::Integer{next("a capacity")});
 
-        for (const auto & l : inst.lags)
-            if (l.from < 0 || l.from >= inst.n_tasks || l.to < 0 || l.to >= inst.n_tasks)
-                throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
         for (const auto & p : inst.durations)
             if (p < gcs::Integer{0})
                 throw std::runtime_error{"malformed .sch file: a negative duration"};
@@ -660,10 +661,13 @@ namespace rcpsp
         auto data = dzn::read(path);
 
         Instance inst;
-        inst.n_tasks = static_cast<int>(data.integer("n_tasks"));
+        auto n_tasks = data.integer("n_tasks");
         auto n_res = static_cast<std::size_t>(data.integer("n_res"));
-        if (inst.n_tasks < 1)
+        if (n_tasks < 1)
             throw std::runtime_error{"'" + path + "' has no tasks"};
+        if (n_tasks > std::numeric_limits<int>::max())
+            throw std::runtime_error{"'" + path + "' has too many tasks"};
+        inst.n_tasks = static_cast<int>(n_tasks);
 
         for (auto & c : data.integers("rc"))
             inst.capacities.push_back(gcs::Integer{c});
@@ -708,9 +712,9 @@ namespace rcpsp
         for (std::size_t at = 0; at != suc.size(); ++at) {
             auto i = static_cast<int>(at);
             for (auto & one_based : suc[at]) {
-                auto j = static_cast<int>(one_based) - 1;
-                if (j < 0 || j >= inst.n_tasks)
+                if (one_based < 1 || one_based > inst.n_tasks)
                     throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
+                auto j = static_cast<int>(one_based) - 1;
                 if (j <= i)
                     throw std::runtime_error{"'" + path + "' lists task " + std::to_string(one_based) + " as a successor of task " +
                         std::to_string(i + 1) + ", so the tasks are not in topological order; this reader needs them to be"};
-- 
2.43.0


From da83903bfe2bd7129da714385398b996b944aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 35/61] fix: table layout reader truncated its dimensions to
 int before checking them

---
 examples/table_layout/table_layout_instance.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/examples/table_layout/table_layout_instance.hh b/examples/table_layout/table_layout_instance.hh
index dd84f02..b94b940 100644
--- a/examples/table_layout/table_layout_instance.hh
+++ b/examples/table_layout/table_layout_instance.hh
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <random>
 #include <stdexcept>
 #include <string>
@@ -155,13 +156,17 @@ namespace table_layout
 
         Instance inst;
         inst.pixelwidth = static_cast<long>(data.integer("pixelwidth"));
-        inst.maxconfig = static_cast<int>(data.integer("maxconfig"));
-        inst.rows = static_cast<int>(data.integer("rows"));
-        inst.cols = static_cast<int>(data.integer("cols"));
+        auto maxconfig = data.integer("maxconfig"), rows = data.integer("rows"), cols = data.integer("cols");
         auto flat_width = data.integers("width"), flat_height = data.integers("height");
 
-        if (inst.rows < 1 || inst.cols < 1 || inst.maxconfig < 1)
+        if (rows < 1 || cols < 1 || maxconfig < 1)
             throw std::runtime_error{"'" + path + "' does not give positive rows, cols and maxconfig"};
+        constexpr auto int_max = std::numeric_limits<int>::max();
+        if (rows > int_max || cols > int_max || maxconfig > int_max)
+            throw std::runtime_error{"'" + path + "' gives implausibly many rows, cols or maxconfig"};
+        inst.maxconfig = static_cast<int>(maxconfig);
+        inst.rows = static_cast<int>(rows);
+        inst.cols = static_cast<int>(cols);
         auto expected = static_cast<std::size_t>(inst.rows) * inst.cols * inst.maxconfig;
         if (flat_width.size() != expected || flat_height.size() != expected)
             throw std::runtime_error{"'" + path + "' has width/height arrays of size " + std::to_string(flat_width.size()) + "/" +
-- 
2.43.0


From 82147c3df567690b8abc8a3d8ee63f9b46737031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 36/61] fix: GlobalCardinality rejects a different number of
 values and counts

Copying the constraint pairs every value with its count, and read past the
end of the counts when there were fewer of them.
---
 gcs/constraints/global_cardinality/global_cardinality.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index c3c41ef..f8879a4 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraint.hh>
 #include <gcs/constraints/global_cardinality/global_cardinality.hh>
 #include <gcs/constraints/global_cardinality/hints.hh>
+#include <gcs/exception.hh>
 #include <gcs/expression.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
@@ -34,6 +35,8 @@ using std::ranges::sort;
 GlobalCardinality::GlobalCardinality(vector<IntegerVariableID> vars, vector<Integer> values, vector<IntegerVariableID> counts) :
     _vars(move(vars)), _values(move(values)), _counts(move(counts))
 {
+    if (_values.size() != _counts.size())
+        throw InvalidProblemDefinitionException{"GlobalCardinality: values and counts must have the same size"};
 }
 
 auto GlobalCardinality::with_consistency(GlobalCardinalityConsistency level) -> GlobalCardinality &
-- 
2.43.0


From 4c5af14b55bc4bf261fad60fb7be691dcd549acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 37/61] fix: Knapsack rejects rows of coefficients that do not
 match the variables

Only the upfront proof strategy checked this; the default one went on to
index the coefficients out of range.
---
 gcs/constraints/knapsack/knapsack.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/knapsack/knapsack.cc b/gcs/constraints/knapsack/knapsack.cc
index a6b9246..f24c695 100644
--- a/gcs/constraints/knapsack/knapsack.cc
+++ b/gcs/constraints/knapsack/knapsack.cc
@@ -598,6 +598,9 @@ auto Knapsack::prepare(Propagators &, State & initial_state, ProofModel * const)
         if (c.size() != n_vars)
             throw InvalidProblemDefinitionException{"not sure what to do about different coefficient array sizes for knapsack"};
 
+    if (n_vars != _vars.size())
+        throw InvalidProblemDefinitionException{"mismatch between coefficients and variables sizes for knapsack"};
+
     for (auto & cc : _coeffs)
         for (auto & c : cc)
             if (c < 0_i)
-- 
2.43.0


From 18122673c1f8a5c505d69af2191378fd43174c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 38/61] fix: Regular and MDD reject states and nodes that do
 not exist

A transition, final state or edge naming a state or node that is not there,
or transitions for too few states, went on to index vectors out of range
(for instance from a .scp file with a damaged automaton).
---
 gcs/constraints/mdd/mdd.cc         | 12 ++++++++++++
 gcs/constraints/regular/regular.cc | 31 ++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/mdd/mdd.cc b/gcs/constraints/mdd/mdd.cc
index b2a8e58..a3eb52e 100644
--- a/gcs/constraints/mdd/mdd.cc
+++ b/gcs/constraints/mdd/mdd.cc
@@ -446,6 +446,18 @@ MDD::MDD(vector<IntegerVariableID> v, vector<vector<unordered_map<Integer, long>
     for (size_t i = 0; i < _vars.size(); ++i)
         if (cmp_less(_layer_transitions[i].size(), _nodes_per_layer[i]))
             throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] must have one entry per node in layer {}", i, i)};
+    for (const auto & n : _nodes_per_layer)
+        if (n < 0)
+            throw InvalidProblemDefinitionException{"MDD: a layer cannot have a negative number of nodes"};
+    for (size_t i = 0; i < _vars.size(); ++i)
+        for (const auto & node : _layer_transitions[i])
+            for (const auto & [_, target] : node)
+                if (target != -1L && (target < 0 || target >= _nodes_per_layer[i + 1]))
+                    throw InvalidProblemDefinitionException{
+                        format("MDD: layer_transitions[{}] has a target that is not a node of layer {}", i, i + 1)};
+    for (const auto & f : _accepting_terminals)
+        if (f < 0 || f >= _nodes_per_layer.back())
+            throw InvalidProblemDefinitionException{"MDD: accepting terminal that is not a node of the last layer"};
 }
 
 auto MDD::clone() const -> unique_ptr<Constraint>
diff --git a/gcs/constraints/regular/regular.cc b/gcs/constraints/regular/regular.cc
index dc9b600..2669a1e 100644
--- a/gcs/constraints/regular/regular.cc
+++ b/gcs/constraints/regular/regular.cc
@@ -40,6 +40,7 @@ using namespace gcs::innards;
 
 using std::any_cast;
 using std::cmp_less;
+using std::cmp_not_equal;
 using std::make_shared;
 using std::max;
 using std::min;
@@ -55,6 +56,7 @@ using std::unique_ptr;
 using std::unordered_map;
 using std::unordered_set;
 using std::vector;
+using std::ranges::all_of;
 using std::ranges::sort;
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -463,23 +465,48 @@ struct Regular::Bridge
     vector<set<long>> static_dead;
 };
 
+namespace
+{
+    auto check_number_of_states(long num_states, size_t transitions_size) -> size_t
+    {
+        if (num_states < 1)
+            throw InvalidProblemDefinitionException{"Regular: the automaton must have at least one state"};
+        if (cmp_not_equal(transitions_size, num_states))
+            throw InvalidProblemDefinitionException{"Regular: the transitions must have one entry per state"};
+        return transitions_size;
+    }
+
+    auto check_states(long num_states, const vector<unordered_map<Integer, set<long>>> & transitions, const vector<long> & final_states) -> void
+    {
+        auto is_state = [&](long q) { return q >= 0 && q < num_states; };
+        for (const auto & from : transitions)
+            for (const auto & [_, targets] : from)
+                if (! all_of(targets, is_state))
+                    throw InvalidProblemDefinitionException{"Regular: transition to something that is not a state"};
+        if (! all_of(final_states, is_state))
+            throw InvalidProblemDefinitionException{"Regular: final state that is not a state"};
+    }
+}
+
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<unordered_map<Integer, long>> t, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(t.size()), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(check_number_of_states(n, t.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t q = 0; q < t.size(); ++q)
         for (const auto & [val, target] : t[q])
             if (target != -1L)
                 _transitions[q][val].insert(target);
+    check_states(_num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<vector<long>> transitions, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(n), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(check_number_of_states(n, transitions.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t i = 0; i < transitions.size(); ++i)
         for (size_t j = 0; j < transitions[i].size(); ++j)
             if (transitions[i][j] != -1L)
                 _transitions[i][Integer(j)].insert(transitions[i][j]);
+    check_states(_num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
-- 
2.43.0


From b7dbbb85ae76cd68ca39242a4e447690fc754ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 39/61] fix: the proof stream's buffer outlives the stream

When solving ends without the proof being concluded, for example because a
callback throws, destroying the stream flushed from a buffer that had
already been freed.
---
 gcs/innards/proofs/proof_logger.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 16d475b..1787a15 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -180,11 +180,12 @@ struct ProofLogger::Imp
     deque<IntervalSet<long long>> proof_lines_by_level;
 
     string proof_file;
-    fstream proof;
     // A proof is many short lines; the default stream buffer makes for a
     // write syscall every few KB, which shows up at this volume. Installed
-    // via pubsetbuf before open in start_proof.
+    // via pubsetbuf before open in start_proof. Declared before the stream,
+    // which flushes from it when it is destroyed without having been closed.
     vector<char> proof_stream_buffer;
+    fstream proof;
     int current_indent = 0;
     AssertionLevel assertion_level;
 
-- 
2.43.0


From b71406fdbfeee7daf77dd6ebe6b0bae7288ee022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 40/61] fix: statistics notes outlive the problem they were
 made for

A note about a named constraint viewed the name the Problem owns, so
printing the statistics solve() returned read freed memory once the Problem
was gone.
---
 gcs/stats.cc | 7 +++++++
 gcs/stats.hh | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/gcs/stats.cc b/gcs/stats.cc
index e658034..a215187 100644
--- a/gcs/stats.cc
+++ b/gcs/stats.cc
@@ -8,6 +8,8 @@
 
 using namespace gcs;
 
+using std::get_if;
+using std::make_shared;
 using std::move;
 using std::ostream;
 using std::shared_ptr;
@@ -55,6 +57,11 @@ auto Stats::report(StatsNote note) -> void
 {
     if (_handler)
         _handler(note);
+    if (note.constraint)
+        if (auto named = get_if<NamedConstraint>(&*note.constraint)) {
+            _note_names.push_back(make_shared<const string>(named->name));
+            named->name = *_note_names.back();
+        }
     _notes.push_back(move(note));
 }
 
diff --git a/gcs/stats.hh b/gcs/stats.hh
index 566f7e1..cdf29c1 100644
--- a/gcs/stats.hh
+++ b/gcs/stats.hh
@@ -288,6 +288,9 @@ namespace gcs
     private:
         std::vector<std::shared_ptr<const ComponentStats>> _components;
         std::vector<StatsNote> _notes;
+        // What the ConstraintIDs in _notes view: the Problem that owns the names
+        // themselves can be gone by the time anyone reads the notes.
+        std::vector<std::shared_ptr<const std::string>> _note_names;
         StatsReportCallback _handler;
     };
 
-- 
2.43.0


From bb6fe9e2f5ba9cdf8409482d61e32e05742a1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 41/61] fix: searches in different threads race on the
 disjunctive overload counters

---
 gcs/constraints/disjunctive/disjunctive.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 2bb7112..269e3c3 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -73,7 +73,8 @@ namespace
      *
      * Hence a static counter rather than a stats object threaded through the
      * public API: this measures a design question, and goes away with the
-     * answer. Printed at exit when GCS_DISJUNCTIVE_OVERLOAD_STATS is set.
+     * answer. Printed as each thread ends when GCS_DISJUNCTIVE_OVERLOAD_STATS is
+     * set.
      */
     struct OverloadInstrumentation
     {
@@ -106,7 +107,8 @@ namespace
         }
     };
 
-    OverloadInstrumentation overload_instrumentation;
+    // Per thread: searches in different threads share nothing, this included.
+    thread_local OverloadInstrumentation overload_instrumentation;
 
     /**
      * One (task, time) flag of the overload certificate's re-encoding, and the
-- 
2.43.0


From c03c09da952c6cff9a167f901b60f917cf6ee098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 42/61] Revert "fix: table layout reader truncated its
 dimensions to int before checking them"

This reverts commit da83903bfe2bd7129da714385398b996b944aca0.
---
 examples/table_layout/table_layout_instance.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/examples/table_layout/table_layout_instance.hh b/examples/table_layout/table_layout_instance.hh
index b94b940..dd84f02 100644
--- a/examples/table_layout/table_layout_instance.hh
+++ b/examples/table_layout/table_layout_instance.hh
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
-#include <limits>
 #include <random>
 #include <stdexcept>
 #include <string>
@@ -156,17 +155,13 @@ namespace table_layout
 
         Instance inst;
         inst.pixelwidth = static_cast<long>(data.integer("pixelwidth"));
-        auto maxconfig = data.integer("maxconfig"), rows = data.integer("rows"), cols = data.integer("cols");
+        inst.maxconfig = static_cast<int>(data.integer("maxconfig"));
+        inst.rows = static_cast<int>(data.integer("rows"));
+        inst.cols = static_cast<int>(data.integer("cols"));
         auto flat_width = data.integers("width"), flat_height = data.integers("height");
 
-        if (rows < 1 || cols < 1 || maxconfig < 1)
+        if (inst.rows < 1 || inst.cols < 1 || inst.maxconfig < 1)
             throw std::runtime_error{"'" + path + "' does not give positive rows, cols and maxconfig"};
-        constexpr auto int_max = std::numeric_limits<int>::max();
-        if (rows > int_max || cols > int_max || maxconfig > int_max)
-            throw std::runtime_error{"'" + path + "' gives implausibly many rows, cols or maxconfig"};
-        inst.maxconfig = static_cast<int>(maxconfig);
-        inst.rows = static_cast<int>(rows);
-        inst.cols = static_cast<int>(cols);
         auto expected = static_cast<std::size_t>(inst.rows) * inst.cols * inst.maxconfig;
         if (flat_width.size() != expected || flat_height.size() != expected)
             throw std::runtime_error{"'" + path + "' has width/height arrays of size " + std::to_string(flat_width.size()) + "/" +
-- 
2.43.0


From 90ff7ba576c0b2eac9ffa4cb9b780a0da21aba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 43/61] Revert "fix: RCPSP readers truncated task counts and
 indices to int before checking their range"

This reverts commit 84e17daecc4296869a8d2b8f1951e2fc2ab095d4.
---
 examples/rcpsp/rcpsp_instance.hh | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/examples/rcpsp/rcpsp_instance.hh b/examples/rcpsp/rcpsp_instance.hh
index bc077d0..62d3fc6 100644
--- a/examples/rcpsp/rcpsp_instance.hh
+++ b/examples/rcpsp/rcpsp_instance.hh
@@ -595,12 +595,8 @@ namespace rcpsp
                 throw std::runtime_error{"malformed .sch file: implausible successor count"};
             std::vector<int> targets;
             targets.reserve(static_cast<std::size_t>(successors));
-            for (long long s = 0; s != successors; ++s) {
-                auto target = next("a successor index");
-                if (target < 0 || target >= inst.n_tasks)
-                    throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
-                targets.push_back(static_cast<int>(target));
-            }
+            for (long long s = 0; s != successors; ++s)
+                targets.push_back(static_cast<int>(next("a successor index")));
             for (long long s = 0; s != successors; ++s)
                 inst.lags.push_back(Lag{static_cast<int>(i), targets[static_cast<std::size_t>(s)], gcs::Integer{next("an arc weight")}});
         }
@@ -618,6 +614,9 @@ namespace rcpsp
         for (std::size_t k = 0; k != um; ++k)
             inst.capacities.push_back(gcs::Integer{next("a capacity")});
 
+        for (const auto & l : inst.lags)
+            if (l.from < 0 || l.from >= inst.n_tasks || l.to < 0 || l.to >= inst.n_tasks)
+                throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
         for (const auto & p : inst.durations)
             if (p < gcs::Integer{0})
                 throw std::runtime_error{"malformed .sch file: a negative duration"};
@@ -661,13 +660,10 @@ namespace rcpsp
         auto data = dzn::read(path);
 
         Instance inst;
-        auto n_tasks = data.integer("n_tasks");
+        inst.n_tasks = static_cast<int>(data.integer("n_tasks"));
         auto n_res = static_cast<std::size_t>(data.integer("n_res"));
-        if (n_tasks < 1)
+        if (inst.n_tasks < 1)
             throw std::runtime_error{"'" + path + "' has no tasks"};
-        if (n_tasks > std::numeric_limits<int>::max())
-            throw std::runtime_error{"'" + path + "' has too many tasks"};
-        inst.n_tasks = static_cast<int>(n_tasks);
 
         for (auto & c : data.integers("rc"))
             inst.capacities.push_back(gcs::Integer{c});
@@ -712,9 +708,9 @@ namespace rcpsp
         for (std::size_t at = 0; at != suc.size(); ++at) {
             auto i = static_cast<int>(at);
             for (auto & one_based : suc[at]) {
-                if (one_based < 1 || one_based > inst.n_tasks)
-                    throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
                 auto j = static_cast<int>(one_based) - 1;
+                if (j < 0 || j >= inst.n_tasks)
+                    throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
                 if (j <= i)
                     throw std::runtime_error{"'" + path + "' lists task " + std::to_string(one_based) + " as a successor of task " +
                         std::to_string(i + 1) + ", so the tasks are not in topological order; this reader needs them to be"};
-- 
2.43.0


From 1a68bb0cfede93bd506dd72c7ff95c0fb9cc6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 44/61] Revert "fix: dzn reader dropped a last list entry that
 was out of range or only a sign"

This reverts commit cac2970a79a8f7c38290231d3cabe5afa7b69235.
---
 examples/dzn.hh | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/examples/dzn.hh b/examples/dzn.hh
index f083446..624214b 100644
--- a/examples/dzn.hh
+++ b/examples/dzn.hh
@@ -80,20 +80,16 @@ namespace dzn
                 if (c == ',')
                     c = ' ';
 
-            // One entry at a time, each of which has to be used up whole.
-            // Extracting straight from the list until it fails cannot tell its
-            // end from a last entry that is out of range, or is only a sign:
-            // both set eofbit too, and the entry would be silently dropped.
             std::vector<long long> result;
             std::istringstream in{separated};
-            std::string token;
-            while (in >> token) {
-                std::istringstream entry{token};
-                long long value = 0;
-                if (! (entry >> value) || entry.peek() != std::istringstream::traits_type::eof())
-                    _bad(name, "has a non-integer " + what + ": '" + text + "'");
+            long long value = 0;
+            while (in >> value)
                 result.push_back(value);
-            }
+            // Reading to the end sets eofbit as well as failbit; stopping on
+            // something else sets only failbit, and that something else is what
+            // has to be complained about rather than ignored.
+            if (! in.eof())
+                _bad(name, "has a non-integer " + what + ": '" + text + "'");
             return result;
         }
 
-- 
2.43.0


From 3eb29e64a5a69ccfe2e8e2d7e656c2e2c50f50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 45/61] fix: FlatZinc regular constraint with a start state
 other than 1 mixed up its rows and final states

---
 minizinc/fzn_glasgow.cc | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 67ce3da..f97d78e 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -957,28 +957,26 @@ auto main(int argc, char * argv[]) -> int
                 const auto & raw_transitions = arg_as_array_of_integer(data, args, 3);
                 const auto & start_state = static_cast<long long>(args.at(4));
 
-                vector<vector<long>> transitions;
-                for (int i = 0; i < num_states; i++) {
-                    transitions.emplace_back();
-                    for (int j = 0; j < num_symbols; j++) {
-                        // Swap 0 and start state to ensure start state is always 0 for gcs::regular
-                        auto t_value = raw_transitions->at(i * num_symbols + j).raw_value;
-                        if (t_value == start_state) {
-                            transitions[i].emplace_back(0);
-                        }
-                        else if (t_value == 1) {
-                            transitions[i].emplace_back(start_state - 1);
-                        }
-                        else
-                            transitions[i].emplace_back(t_value - 1);
-                    }
-                }
+                // Swap 0 and start state to ensure start state is always 0 for gcs::regular
+                auto state_index = [&](long long state) -> long {
+                    if (state == start_state)
+                        return 0;
+                    else if (state == 1)
+                        return start_state - 1;
+                    else
+                        return state - 1;
+                };
+
+                vector<vector<long>> transitions(num_states);
+                for (int i = 0; i < num_states; i++)
+                    for (int j = 0; j < num_symbols; j++)
+                        transitions[state_index(i + 1)].emplace_back(state_index(raw_transitions->at(i * num_symbols + j).raw_value));
 
                 const auto & final_states = arg_as_set_of_integer(data, args, 5);
                 vector<long> final_states_raw{};
                 for (long i = 1; i < num_states + 1; i++) {
                     if (final_states.contains(Integer{i})) {
-                        final_states_raw.emplace_back(i - 1);
+                        final_states_raw.emplace_back(state_index(i));
                     }
                 }
 
-- 
2.43.0


From 66f27a594f926b457c26eb5f862104536b8aa3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 46/61] fix: smart table encodings of lex and at_most_one lost
 their constraint's id in assertions

---
 gcs/constraints/at_most_one/at_most_one.cc | 1 +
 gcs/constraints/lex/lex_smart_table.cc     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gcs/constraints/at_most_one/at_most_one.cc b/gcs/constraints/at_most_one/at_most_one.cc
index 4ee4fb4..0634dcd 100644
--- a/gcs/constraints/at_most_one/at_most_one.cc
+++ b/gcs/constraints/at_most_one/at_most_one.cc
@@ -192,6 +192,7 @@ auto AtMostOneSmartTable::prepare(Propagators & propagators, State & initial_sta
     all_vars.emplace_back(_val);
 
     SmartTable smt_table{all_vars, tuples};
+    smt_table.set_constraint_id(constraint_id());
     move(smt_table).install(propagators, initial_state, optional_model);
 
     return false;
diff --git a/gcs/constraints/lex/lex_smart_table.cc b/gcs/constraints/lex/lex_smart_table.cc
index b4f783f..ec1e733 100644
--- a/gcs/constraints/lex/lex_smart_table.cc
+++ b/gcs/constraints/lex/lex_smart_table.cc
@@ -63,6 +63,7 @@ auto LexSmartTable::prepare(Propagators & propagators, State & initial_state, Pr
     all_vars.insert(all_vars.end(), _vars_2.begin(), _vars_2.end());
 
     auto smt_table = SmartTable{all_vars, tuples};
+    smt_table.set_constraint_id(constraint_id());
     move(smt_table).install(propagators, initial_state, optional_model);
 
     return false;
-- 
2.43.0


From 5c4e0d1f8b3a18473e33a42edf55a60565a8a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 47/61] fix: circuit's asserted edge prunings carried no reason

---
 gcs/constraints/circuit/circuit_scc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/circuit/circuit_scc.cc b/gcs/constraints/circuit/circuit_scc.cc
index 95d01a2..c5b21fd 100644
--- a/gcs/constraints/circuit/circuit_scc.cc
+++ b/gcs/constraints/circuit/circuit_scc.cc
@@ -976,7 +976,7 @@ namespace
                         inference.infer(logger, succ[node] != w, NoJustificationNeeded{}, NoReason{});
                     }
                     else {
-                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                     }
                 }
                 data.lowlink[node] = pos_min(data.lowlink[node], data.visit_number[next_node]);
@@ -1026,7 +1026,7 @@ namespace
                         }
                         else {
 
-                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                         }
                     }
                 }
-- 
2.43.0


From c6170586c4f150514d58f87fe252326be925f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 48/61] fix: range inferences logged one value at a time lost
 their assertion annotation

---
 gcs/innards/proofs/proof_logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 1787a15..3f3d364 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -437,7 +437,7 @@ auto ProofLogger::infer(
                                                 .visit(cond->var);
             if (needs_per_value_fallback) {
                 for (Integer val = cond->value; val <= cond->upper_value; ++val)
-                    infer(cond->var != val, why, reason);
+                    infer(cond->var != val, why, reason, annotation);
                 return;
             }
         }
-- 
2.43.0


From 859588655f2570169b0c5bfdc9199c54901b66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 49/61] fix: set-based detectable precedences certified
 variable durations at their current bound, not the declared one

---
 gcs/constraints/disjunctive/disjunctive.cc | 33 +++++++++++++---------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 269e3c3..2515909 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -954,8 +954,8 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 if (degree <= 0_i)
                     throw ProofError{"disjunctive set-based precedence: the ordering is not detectable"};
                 PolBuilder refute;
-                refute.add(
-                    emit_before_pol(refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i, nullopt, degree));
+                refute.add(emit_before_pol(
+                    refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i, duration_floor(refuted_from), degree));
                 // What the divided row still carries is the two bounds the
                 // reason holds, one on each task.
                 if (! is_constant_variable(starts[refuted_from]))
@@ -1797,6 +1797,15 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                         // `state` in the justification, since by then an earlier
                         // push has landed and the state holds a bound the reason
                         // does not support.
+                        //
+                        // Everything here is counted at energy_len, as for
+                        // edge-finding and the overload check: the certificate
+                        // cites rows that are stated at the declared minimum
+                        // duration, so a task whose minimum has only become
+                        // positive or longer during search is taken at what it
+                        // was declared to run for, or not taken at all.
+                        auto set_p_j = energy_len(j);
+                        auto collect_sets = rules.detectable_precedences_set && set_p_j > 0_i;
                         vector<SetTask> predecessors, successors;
                         for (auto k : active_tasks) {
                             if (k == j || min_len(k) == 0_i || ! is_present(k))
@@ -1808,16 +1817,16 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                                     predecessor = k;
                                     predecessor_eet = eet_k;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    predecessors.push_back(SetTask{k, k_lb, min_len(k), k_lb, k_ub});
+                                if (collect_sets && energy_len(k) > 0_i && cur_lb + set_p_j > k_ub)
+                                    predecessors.push_back(SetTask{k, k_lb, energy_len(k), k_lb, k_ub});
                             }
                             if (eet_k > cur_ub) {
                                 if (! successor || k_ub < successor_lst) {
                                     successor = k;
                                     successor_lst = k_ub;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    successors.push_back(SetTask{k, k_ub + min_len(k), min_len(k), k_lb, k_ub});
+                                if (collect_sets && energy_len(k) > 0_i && k_lb + energy_len(k) > cur_ub)
+                                    successors.push_back(SetTask{k, k_ub + energy_len(k), energy_len(k), k_lb, k_ub});
                             }
                         }
 
@@ -1892,12 +1901,11 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                             // actually reaches further.
                             auto set_based = target > pairwise_target;
                             if (target > cur_lb) {
-                                auto p_j = min_len(j);
-                                auto justify = [&, j, k = *predecessor, cur_lb, cur_ub, p_j, target, set_based, cut](
+                                auto justify = [&, j, k = *predecessor, cur_lb, cur_ub, set_p_j, target, set_based, cut](
                                                    const ReasonLiterals & reason) -> void {
                                     if (set_based) {
                                         set_precedence_justification(
-                                            cut->edge, cut->threshold - 1_i, cut->cut, j, cur_lb, cur_ub, p_j, cut->threshold, true)(reason);
+                                            cut->edge, cut->threshold - 1_i, cut->cut, j, cur_lb, cur_ub, set_p_j, cut->threshold, true)(reason);
                                         return;
                                     }
                                     logger->emit_proof_comment(
@@ -1919,15 +1927,14 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                         if (successor) {
                             auto cut = rules.detectable_precedences_set ? set_lst() : nullopt;
                             auto pairwise_target = max(successor_lst - min_len(j), cur_lb - 1_i) - (one_too_far ? 1_i : 0_i);
-                            auto target = cut ? max(cut->threshold - min_len(j), cur_lb - 1_i) - (one_too_far ? 1_i : 0_i) : pairwise_target;
+                            auto target = cut ? max(cut->threshold - set_p_j, cur_lb - 1_i) - (one_too_far ? 1_i : 0_i) : pairwise_target;
                             auto set_based = target < pairwise_target;
                             if (target < cur_ub) {
-                                auto p_j = min_len(j);
-                                auto justify = [&, j, k = *successor, cur_lb, cur_ub, p_j, target, set_based, cut](
+                                auto justify = [&, j, k = *successor, cur_lb, cur_ub, set_p_j, target, set_based, cut](
                                                    const ReasonLiterals & reason) -> void {
                                     if (set_based) {
                                         set_precedence_justification(
-                                            cut->threshold + 1_i, cut->edge, cut->cut, j, cur_lb, cur_ub, p_j, cut->threshold, false)(reason);
+                                            cut->threshold + 1_i, cut->edge, cut->cut, j, cur_lb, cur_ub, set_p_j, cut->threshold, false)(reason);
                                         return;
                                     }
                                     logger->emit_proof_comment(
-- 
2.43.0


From 08f895fe0d21e921fe163b1d5131429758c35b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 50/61] fix: disjunctive published not-first / not-last
 shortcut cited deleted rows of an earlier firing

---
 gcs/constraints/disjunctive/disjunctive.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 2515909..932da43 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -1192,6 +1192,17 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                     if (std::holds_alternative<disjunctive_proof_mutation::PublishedEmitNothing>(mutation))
                         return;
 
+                    // As edge-finding: a Temporary vocabulary does not outlive
+                    // the firing that made it, so what the caches hold has been
+                    // deleted and citing it would be citing a dead row.
+                    if (ProofLevel::Top != rules.overload_vocabulary_at) {
+                        activity->clear();
+                        bridge->clear();
+                        floors->clear();
+                        escapes->clear();
+                        guarded->clear();
+                    }
+
                     // A contained task with no room for itself in the derived
                     // window needs no energy argument: its two guards are
                     // already contradictory, so the clause taken at the task's
@@ -1219,17 +1230,6 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                     tasks.push_back(j);
                     pin_escapes(reason, tasks);
 
-                    // As edge-finding: a Temporary vocabulary does not outlive
-                    // the firing that made it, so what the caches hold has been
-                    // deleted and citing it would be citing a dead row.
-                    if (ProofLevel::Top != rules.overload_vocabulary_at) {
-                        activity->clear();
-                        bridge->clear();
-                        floors->clear();
-                        escapes->clear();
-                        guarded->clear();
-                    }
-
                     for (auto i : members)
                         for (Integer t = lo; t < hi; ++t)
                             (void)activity_flag(i, t);
-- 
2.43.0


From 6e9868dea65b1954cfe3889b3c66d6cfea7e522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 51/61] fix: among proofs name a view's values differently in
 the encoding and in its at-most-ones

---
 gcs/constraints/among/among.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 3ffb264..64a2662 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -32,6 +32,7 @@
 using namespace gcs;
 using namespace gcs::innards;
 
+using std::get_if;
 using std::holds_alternative;
 using std::make_shared;
 using std::map;
@@ -67,6 +68,26 @@ namespace
         result.erase(unique(result).begin(), result.end());
         return result;
     }
+
+    // The encoding, and every proof line that gets added to it, names a view's
+    // values by way of the variable underneath. Otherwise, what a literal over
+    // a view is called depends upon whether some other constraint has since
+    // introduced a name for the view, and terms which should cancel do not.
+    auto has_value(const IntegerVariableID & var, Integer val) -> IntegerVariableCondition
+    {
+        if (auto view = get_if<ViewOfIntegerVariableID>(&var))
+            return view->actual_variable == (view->negate_first ? view->then_add - val : val - view->then_add);
+        else
+            return var == val;
+    }
+
+    auto need_at_least_one_value_line(NamesAndIDsTracker & tracker, const IntegerVariableID & var) -> ProofLine
+    {
+        if (auto view = get_if<ViewOfIntegerVariableID>(&var))
+            return tracker.need_constraint_saying_variable_takes_at_least_one_value(view->actual_variable);
+        else
+            return tracker.need_constraint_saying_variable_takes_at_least_one_value(var);
+    }
 }
 
 Among::Among(vector<IntegerVariableID> vars, const vector<Integer> & values_of_interest, const IntegerVariableID & how_many) :
@@ -86,7 +107,7 @@ auto Among::define_proof_model(ProofModel & model, const State &) -> void
     WPBSum sum;
     for (auto & var : _vars)
         for (auto & val : _values_of_interest)
-            sum += 1_i * (var == val);
+            sum += 1_i * has_value(var, val);
     _sum_line = model.add_labelled_constraint(constraint_id(), "le", "ge", sum == 1_i * _how_many);
 }
 
@@ -108,7 +129,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 for (auto & var : vars) {
                     vector<IntegerVariableCondition> var_eq_vois;
                     for (const auto & voi : values_of_interest)
-                        var_eq_vois.push_back(var != voi);
+                        var_eq_vois.push_back(! has_value(var, voi));
                     am1_lines->emplace(var,
                         recover_am1<IntegerVariableCondition>(
                             *logger, ProofLevel::Top, var_eq_vois, [&](const IntegerVariableCondition & a, const IntegerVariableCondition & b) {
@@ -182,7 +203,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                         // emission, so they don't need (and don't have) an at-least-one line.
                         if (holds_alternative<ConstantIntegerVariableID>(m))
                             continue;
-                        b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
+                        b.add(need_at_least_one_value_line(logger->names_and_ids_tracker(), m));
                     }
                     b.emit(*logger, ProofLevel::Temporary);
                 }
@@ -246,7 +267,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                                 for (const auto & m : must_match_vars) {
                                     if (holds_alternative<ConstantIntegerVariableID>(m))
                                         continue;
-                                    b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
+                                    b.add(need_at_least_one_value_line(logger->names_and_ids_tracker(), m));
                                 }
                                 b.emit(*logger, ProofLevel::Temporary);
                             }
-- 
2.43.0


From 83ce46d48fd7cf0a2a785b4a732b887a0fa921d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 52/61] fix: global cardinality proofs miscount constants, and
 name a view's values differently in the encoding and in its at-most-ones

---
 gcs/constraints/among/among.cc                | 30 +++----------
 .../bounds_global_cardinality.cc              | 21 +++++++---
 .../global_cardinality/global_cardinality.cc  |  3 +-
 gcs/constraints/global_cardinality/justify.cc | 12 ++++--
 gcs/constraints/innards/underlying_value.hh   | 42 +++++++++++++++++++
 5 files changed, 74 insertions(+), 34 deletions(-)
 create mode 100644 gcs/constraints/innards/underlying_value.hh

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 64a2662..f0f9203 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraints/among/among.hh>
 #include <gcs/constraints/among/hints.hh>
 #include <gcs/constraints/innards/recover_am1.hh>
+#include <gcs/constraints/innards/underlying_value.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
 #include <gcs/innards/proofs/pol_builder.hh>
@@ -32,7 +33,6 @@
 using namespace gcs;
 using namespace gcs::innards;
 
-using std::get_if;
 using std::holds_alternative;
 using std::make_shared;
 using std::map;
@@ -68,26 +68,6 @@ namespace
         result.erase(unique(result).begin(), result.end());
         return result;
     }
-
-    // The encoding, and every proof line that gets added to it, names a view's
-    // values by way of the variable underneath. Otherwise, what a literal over
-    // a view is called depends upon whether some other constraint has since
-    // introduced a name for the view, and terms which should cancel do not.
-    auto has_value(const IntegerVariableID & var, Integer val) -> IntegerVariableCondition
-    {
-        if (auto view = get_if<ViewOfIntegerVariableID>(&var))
-            return view->actual_variable == (view->negate_first ? view->then_add - val : val - view->then_add);
-        else
-            return var == val;
-    }
-
-    auto need_at_least_one_value_line(NamesAndIDsTracker & tracker, const IntegerVariableID & var) -> ProofLine
-    {
-        if (auto view = get_if<ViewOfIntegerVariableID>(&var))
-            return tracker.need_constraint_saying_variable_takes_at_least_one_value(view->actual_variable);
-        else
-            return tracker.need_constraint_saying_variable_takes_at_least_one_value(var);
-    }
 }
 
 Among::Among(vector<IntegerVariableID> vars, const vector<Integer> & values_of_interest, const IntegerVariableID & how_many) :
@@ -107,7 +87,7 @@ auto Among::define_proof_model(ProofModel & model, const State &) -> void
     WPBSum sum;
     for (auto & var : _vars)
         for (auto & val : _values_of_interest)
-            sum += 1_i * has_value(var, val);
+            sum += 1_i * underlying_value(var, val);
     _sum_line = model.add_labelled_constraint(constraint_id(), "le", "ge", sum == 1_i * _how_many);
 }
 
@@ -129,7 +109,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 for (auto & var : vars) {
                     vector<IntegerVariableCondition> var_eq_vois;
                     for (const auto & voi : values_of_interest)
-                        var_eq_vois.push_back(! has_value(var, voi));
+                        var_eq_vois.push_back(! underlying_value(var, voi));
                     am1_lines->emplace(var,
                         recover_am1<IntegerVariableCondition>(
                             *logger, ProofLevel::Top, var_eq_vois, [&](const IntegerVariableCondition & a, const IntegerVariableCondition & b) {
@@ -203,7 +183,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                         // emission, so they don't need (and don't have) an at-least-one line.
                         if (holds_alternative<ConstantIntegerVariableID>(m))
                             continue;
-                        b.add(need_at_least_one_value_line(logger->names_and_ids_tracker(), m));
+                        b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(underlying_variable(m)));
                     }
                     b.emit(*logger, ProofLevel::Temporary);
                 }
@@ -267,7 +247,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                                 for (const auto & m : must_match_vars) {
                                     if (holds_alternative<ConstantIntegerVariableID>(m))
                                         continue;
-                                    b.add(need_at_least_one_value_line(logger->names_and_ids_tracker(), m));
+                                    b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(underlying_variable(m)));
                                 }
                                 b.emit(*logger, ProofLevel::Temporary);
                             }
diff --git a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
index 7abbd29..32301b0 100644
--- a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
@@ -2,6 +2,7 @@
 #include <gcs/constraints/global_cardinality/hints.hh>
 #include <gcs/constraints/in.hh>
 #include <gcs/constraints/innards/recover_am1.hh>
+#include <gcs/constraints/innards/underlying_value.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
 #include <gcs/innards/proofs/pol_builder.hh>
@@ -218,8 +219,10 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                     if (keep != optional<std::size_t>{v} && ! holds_alternative<ConstantIntegerVariableID>(counts[v]))
                         pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
                 }
+                // What a constant contributes is already part of the count lines.
                 for (const auto & var : confined)
-                    pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+                    if (! holds_alternative<ConstantIntegerVariableID>(var))
+                        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(underlying_variable(var)));
                 pb.emit(*logger, ProofLevel::Temporary);
             };
 
@@ -284,8 +287,10 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                                         if (! holds_alternative<ConstantIntegerVariableID>(counts[v]))
                                             pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
                                     }
+                                // What a constant contributes is already part of the count lines.
                                 for (const auto & var : confined)
-                                    pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+                                    if (! holds_alternative<ConstantIntegerVariableID>(var))
+                                        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(underlying_variable(var)));
                                 pb.add(*count_lines[j].first);
                                 pb.emit(*logger, ProofLevel::Temporary);
                             },
@@ -303,9 +308,12 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                                 auto & tracker = logger->names_and_ids_tracker();
                                 PolBuilder pb;
                                 for (const auto & var : potential) {
+                                    // What a constant contributes is already part of the count lines.
+                                    if (holds_alternative<ConstantIntegerVariableID>(var))
+                                        continue;
                                     vector<IntegerVariableCondition> atoms;
                                     for (std::size_t v = a; v <= b; ++v)
-                                        atoms.push_back(var == values[v]);
+                                        atoms.push_back(underlying_value(var, values[v]));
                                     pb.add(recover_am1<IntegerVariableCondition>(*logger, ProofLevel::Temporary, atoms,
                                         [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
                                             return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * ! p + 1_i * ! q >= 1_i, ProofLevel::Temporary);
@@ -360,11 +368,14 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                         pb.add_for_literal(tracker, counts[v] >= state.bounds(counts[v]).first);
                 }
                 for (const auto & var : potential) {
+                    // What a constant contributes is already part of the count lines.
+                    if (holds_alternative<ConstantIntegerVariableID>(var))
+                        continue;
                     vector<IntegerVariableCondition> atoms;
                     for (std::size_t v = a; v <= b; ++v)
-                        atoms.push_back(var == values[v]);
+                        atoms.push_back(underlying_value(var, values[v]));
                     if (kvar == optional<IntegerVariableID>{var})
-                        atoms.push_back(var == kw);
+                        atoms.push_back(underlying_value(var, kw));
                     pb.add(recover_am1<IntegerVariableCondition>(
                         *logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
                             return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * ! p + 1_i * ! q >= 1_i, ProofLevel::Temporary);
diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index f8879a4..c8a8400 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraint.hh>
 #include <gcs/constraints/global_cardinality/global_cardinality.hh>
 #include <gcs/constraints/global_cardinality/hints.hh>
+#include <gcs/constraints/innards/underlying_value.hh>
 #include <gcs/exception.hh>
 #include <gcs/expression.hh>
 #include <gcs/innards/inference_tracker.hh>
@@ -99,7 +100,7 @@ auto GlobalCardinality::define_proof_model(ProofModel & model, const State &) ->
     for (const auto & [j, value] : enumerate(_values)) {
         WPBSum sum;
         for (const auto & var : _vars)
-            sum += 1_i * (var == value);
+            sum += 1_i * underlying_value(var, value);
         // cake_pb_cp labels the per-value count equality @c[<id>][<j>_le]/[<j>_ge]:
         // the value index lives in the annotation tag, not the constraint name (a
         // name-embedded index could collide with a sibling constraint's name).
diff --git a/gcs/constraints/global_cardinality/justify.cc b/gcs/constraints/global_cardinality/justify.cc
index e5e3ccb..96372e0 100644
--- a/gcs/constraints/global_cardinality/justify.cc
+++ b/gcs/constraints/global_cardinality/justify.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/global_cardinality/justify.hh>
 #include <gcs/constraints/innards/recover_am1.hh>
+#include <gcs/constraints/innards/underlying_value.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
 #include <gcs/innards/proofs/pol_builder.hh>
 
@@ -38,8 +39,10 @@ auto gcs::innards::emit_gcc_capacity_pol(ProofLogger & logger, const State & sta
             pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
     }
     (void)vars;
+    // What a constant contributes is already part of the count lines.
     for (const auto & var : confined)
-        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+        if (! holds_alternative<ConstantIntegerVariableID>(var))
+            pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(underlying_variable(var)));
     pb.emit(logger, ProofLevel::Temporary);
 }
 
@@ -75,11 +78,14 @@ auto gcs::innards::emit_gcc_demand_pol(ProofLogger & logger, const State & state
     }
     (void)vars;
     for (const auto & var : potential) {
+        // What a constant contributes is already part of the count lines.
+        if (holds_alternative<ConstantIntegerVariableID>(var))
+            continue;
         vector<IntegerVariableCondition> atoms;
         for (const auto & val : hall)
-            atoms.push_back(var == val);
+            atoms.push_back(underlying_value(var, val));
         if (pruned_var == optional<IntegerVariableID>{var} && pruned_value)
-            atoms.push_back(var == *pruned_value);
+            atoms.push_back(underlying_value(var, *pruned_value));
         if (atoms.size() >= 2)
             pb.add(recover_am1<IntegerVariableCondition>(
                 logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
diff --git a/gcs/constraints/innards/underlying_value.hh b/gcs/constraints/innards/underlying_value.hh
new file mode 100644
index 0000000..4afbac2
--- /dev/null
+++ b/gcs/constraints/innards/underlying_value.hh
@@ -0,0 +1,42 @@
+#ifndef GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_CONSTRAINTS_INNARDS_UNDERLYING_VALUE_HH
+#define GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_CONSTRAINTS_INNARDS_UNDERLYING_VALUE_HH
+
+#include <gcs/integer.hh>
+#include <gcs/variable_condition.hh>
+#include <gcs/variable_id.hh>
+
+#include <variant>
+
+namespace gcs::innards
+{
+    /**
+     * \brief The variable underneath a view, or the variable itself.
+     */
+    [[nodiscard]] inline auto underlying_variable(const IntegerVariableID & var) -> IntegerVariableID
+    {
+        if (auto view = std::get_if<ViewOfIntegerVariableID>(&var))
+            return view->actual_variable;
+        else
+            return var;
+    }
+
+    /**
+     * \brief The condition that a variable takes a value, stated by way of the
+     * variable underneath it if it is a view.
+     *
+     * What a literal over a view is called depends upon whether the view has
+     * been introduced to the proof yet, which some later constraint may do. An
+     * encoding whose rows are added to other lines that are derived later on has
+     * to name a view's values like this, in both places: otherwise, terms that
+     * should cancel do not.
+     */
+    [[nodiscard]] inline auto underlying_value(const IntegerVariableID & var, Integer val) -> IntegerVariableCondition
+    {
+        if (auto view = std::get_if<ViewOfIntegerVariableID>(&var))
+            return IntegerVariableID{view->actual_variable} == (view->negate_first ? view->then_add - val : val - view->then_add);
+        else
+            return var == val;
+    }
+}
+
+#endif
-- 
2.43.0


From 4b03174880eb4b943b320b1c0b5b5020c0e5269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 53/61] fix: circuit's required edges ignored other ways out it
 was told not to prune

---
 gcs/constraints/circuit/circuit_scc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/circuit/circuit_scc.cc b/gcs/constraints/circuit/circuit_scc.cc
index c5b21fd..bebfb13 100644
--- a/gcs/constraints/circuit/circuit_scc.cc
+++ b/gcs/constraints/circuit/circuit_scc.cc
@@ -960,7 +960,12 @@ namespace
                 if (data.visit_number[next_node] >= data.start_prev_subtree && data.visit_number[next_node] <= data.end_prev_subtree) {
                     back_edges.emplace_back(node, next_node);
                 }
-                else if (options.prune_skip && data.visit_number[next_node] < data.start_prev_subtree) {
+                else if (data.visit_number[next_node] < data.start_prev_subtree && ! options.prune_skip) {
+                    // An edge we aren't pruning is still a way out, so none of the arguments that
+                    // count back edges may ignore it.
+                    back_edges.emplace_back(node, next_node);
+                }
+                else if (data.visit_number[next_node] < data.start_prev_subtree) {
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (next_node == data.root) {
                             logger->emit_proof_comment(
-- 
2.43.0


From 864916f4672634d6b92b317b37686438463209ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:49 +0000
Subject: [PATCH 54/61] fix: minimum distance matching proofs lost a step when
 a 0-1 point can take both sites of an edge

---
 gcs/constraints/min_distance/min_distance.cc | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/gcs/constraints/min_distance/min_distance.cc b/gcs/constraints/min_distance/min_distance.cc
index d3188c9..2a2f9f6 100644
--- a/gcs/constraints/min_distance/min_distance.cc
+++ b/gcs/constraints/min_distance/min_distance.cc
@@ -21,6 +21,7 @@
 using namespace gcs;
 using namespace gcs::innards;
 
+using std::make_optional;
 using std::make_unique;
 using std::map;
 using std::optional;
@@ -709,6 +710,29 @@ auto MinDistance::install_matching_propagator(Propagators & propagators) -> void
                             return logger->emit_rup_proof_line(WPBSum{} + 1_i * (x[lits[0].first] != lits[0].second) >= 0_i, ProofLevel::Temporary);
                         return std::nullopt;
                     }
+                    // A 0-1 position that can take both sites has complementary
+                    // literals, whose pair line is vacuous: the recurrence would lose
+                    // from it. One of the two always holds, so every other literal of
+                    // L contradicts ~g, and that gives the same sum directly.
+                    auto complementary = [&](const pair<std::size_t, Integer> & r, const pair<std::size_t, Integer> & s) {
+                        if (r.first != s.first)
+                            return false;
+                        auto r_lit = tracker.need_pol_item_defining_literal(x[r.first] == r.second);
+                        auto s_lit = tracker.need_pol_item_defining_literal(x[s.first] == s.second);
+                        return std::holds_alternative<XLiteral>(r_lit) && std::holds_alternative<XLiteral>(s_lit) &&
+                            std::get<XLiteral>(r_lit) == ! std::get<XLiteral>(s_lit);
+                    };
+                    for (std::size_t i = 1; i < lits.size(); ++i)
+                        for (std::size_t j = 0; j < i; ++j)
+                            if (complementary(lits[i], lits[j])) {
+                                PolBuilder sum;
+                                for (std::size_t k = 0; k < lits.size(); ++k)
+                                    if (k != i && k != j)
+                                        sum.add(logger->emit_rup_proof_line(
+                                            WPBSum{} + 1_i * (x[lits[k].first] != lits[k].second) + 1_i * guard >= 1_i, ProofLevel::Temporary));
+                                return sum.empty() ? std::nullopt : make_optional(sum.emit(*logger, ProofLevel::Temporary));
+                            }
+
                     PolBuilder am1;
                     int layer = 0;
                     for (std::size_t i = 1; i < lits.size(); ++i) {
-- 
2.43.0


From bd35f60b6aff7589018d6bd272275f1092d3e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 55/61] fix: In proofs read the variable's domain after an
 inference that may have changed it

---
 gcs/constraints/in/in.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/in/in.cc b/gcs/constraints/in/in.cc
index 1a72930..9de8d2e 100644
--- a/gcs/constraints/in/in.cc
+++ b/gcs/constraints/in/in.cc
@@ -255,19 +255,27 @@ auto In::install_propagators(Propagators & propagators) -> void
                         reason = with_extra(generic_reason(vector{var}), std::move(extra));
                     }
 
+                    // The justification runs after the inference has been applied, and V
+                    // may share a variable with var, so it cannot look at dom(var) itself:
+                    // it has to walk the values the reason was about.
+                    vector<Integer> dom_var;
+                    if (logger)
+                        for (const auto & w : state.each_value_immutable(var))
+                            dom_var.push_back(w);
+
                     inference.infer_not_equal(logger, V, val,
                         JustifyExplicitly{//
-                            [logger, &state, &var_vals, &selectors, var, i](const ReasonLiterals & reason) {
+                            [logger, dom_var, &var_vals, &selectors, var, i](const ReasonLiterals & reason) {
                                 // When var is fixed, dom(var) is a single value and the inner-loop
                                 // scaffolding line `! sel_j + (var != w)` collapses (under the reason's
                                 // `var = w` literal) to the same constraint as the outer `! sel_j`, so
                                 // skip the inner loop entirely.
-                                bool var_fixed = state.has_single_value(var);
+                                bool var_fixed = (1 == dom_var.size());
                                 for (const auto & [j, V_j] : enumerate(var_vals)) {
                                     if (j == i)
                                         continue;
                                     if (! var_fixed)
-                                        for (const auto & w : state.each_value_immutable(var))
+                                        for (const auto & w : dom_var)
                                             logger->emit_rup_proof_line_under_reason(
                                                 reason, WPBSum{} + 1_i * ! selectors[j] + 1_i * (var != w) >= 1_i, ProofLevel::Temporary);
                                     logger->emit_rup_proof_line_under_reason(reason, WPBSum{} + 1_i * ! selectors[j] >= 1_i, ProofLevel::Temporary);
-- 
2.43.0


From 24656db5f0f0984010f61a1eb14ea26d947554f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 56/61] fix: equality's no-overlap proofs read a domain that
 deciding the condition may have changed

---
 gcs/constraints/equals/equals.cc |  6 +++---
 gcs/constraints/equals/hints.hh  | 15 +++++++--------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/gcs/constraints/equals/equals.cc b/gcs/constraints/equals/equals.cc
index d161cbe..20bfefa 100644
--- a/gcs/constraints/equals/equals.cc
+++ b/gcs/constraints/equals/equals.cc
@@ -47,8 +47,8 @@ namespace gcs::innards::hints
 {
     auto emit_justification(ProofLogger & logger, const EqualsNoOverlap & w, const ReasonLiterals &) -> void
     {
-        for (Integer val = w.v1_bounds.first; val <= w.v1_bounds.second; ++val)
-            if (w.state->in_domain(w.v1, val))
+        for (Integer val = w.v1_values.lower(); val <= w.v1_values.upper(); ++val)
+            if (w.v1_values.contains(val))
                 logger.emit_rup_proof_line(WPBSum{} + 1_i * (w.v1 != val) + 1_i * (w.v2 == val) + 1_i * ! w.cond >= 1_i, ProofLevel::Temporary);
             else
                 logger.emit_rup_proof_line(WPBSum{} + 1_i * (w.v2 != val) + 1_i * (w.v1 == val) + 1_i * ! w.cond >= 1_i, ProofLevel::Temporary);
@@ -185,7 +185,7 @@ namespace
             else
                 reason.emplace_back(v1 != val);
 
-        return pair{hints::EqualsNoOverlap{{owner}, &state, v1, v2, v1_bounds, cond}, ExplicitReason{reason}};
+        return pair{hints::EqualsNoOverlap{{owner}, v1, v2, state.copy_of_values(v1), cond}, ExplicitReason{reason}};
     }
 
     // equals's reified verdicts are either a plain RUP (the singleton / forced
diff --git a/gcs/constraints/equals/hints.hh b/gcs/constraints/equals/hints.hh
index d8e4da9..a9f94f7 100644
--- a/gcs/constraints/equals/hints.hh
+++ b/gcs/constraints/equals/hints.hh
@@ -2,15 +2,14 @@
 #define GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_CONSTRAINTS_EQUALS_HINTS_HH
 
 #include <gcs/constraint_id.hh>
+#include <gcs/interval_set.hh>
 #include <gcs/innards/literal.hh>
 #include <gcs/innards/proofs/proof_logger-fwd.hh>
 #include <gcs/innards/reason.hh>
-#include <gcs/innards/state-fwd.hh>
 #include <gcs/integer.hh>
 #include <gcs/variable_id.hh>
 
 #include <string_view>
-#include <utility>
 
 namespace gcs::innards::hints
 {
@@ -35,19 +34,19 @@ namespace gcs::innards::hints
      *
      * Extends the base with the `no_overlap` subhint and the emit context the
      * internal proof writer reads to emit the per-value RUP lemmas: the operands,
-     * the bounds walked over, and the reification condition. The State pointer is
-     * valid because the verdict is consumed synchronously while the constraint is
-     * live. The data is held for emit_justification only; with no own hint_sexpr
-     * the hint takes the default identity-plus-subhint wire form.
+     * the values the first of them had, and the reification condition. The values
+     * are copied because the verdict's inference is applied before its justification
+     * is emitted, and the condition may be over one of the operands. The data is
+     * held for emit_justification only; with no own hint_sexpr the hint takes the
+     * default identity-plus-subhint wire form.
      *
      * \ingroup Innards
      */
     struct EqualsNoOverlap : Equals
     {
         static constexpr std::string_view subhint_name = "no_overlap";
-        const State * state;
         IntegerVariableID v1, v2;
-        std::pair<Integer, Integer> v1_bounds;
+        IntervalSet<Integer> v1_values;
         Literal cond;
     };
 
-- 
2.43.0


From 91970dd3b576fca87c6f18e102de36772ddcbcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:38 +0000
Subject: [PATCH 57/61] fix: min and max proofs read the result's domain after
 an inference that may have changed it

---
 gcs/constraints/min_max/min_max.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/min_max/min_max.cc b/gcs/constraints/min_max/min_max.cc
index ec890dc..fc215ed 100644
--- a/gcs/constraints/min_max/min_max.cc
+++ b/gcs/constraints/min_max/min_max.cc
@@ -174,11 +174,13 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                 // The selector can only be true for the supporting variable: every other var
                 // is missing all of result's values, so its model selector must be false. This
                 // is value-independent, so the range path emits it once per interval rather
-                // than once per removed value.
+                // than once per removed value. Justifications run after their inference has
+                // been applied, so, here and below, they must not look at result's domain,
+                // which changes too if result is a view of the variable being pruned.
                 auto rule_out_other_selectors = [&](const ReasonLiterals & reason) {
                     for (const auto & [idx, var] : enumerate(vars))
                         if (var != *support_1) {
-                            for (const auto & rval : state.each_value_immutable(result))
+                            for (const auto & rval : result_set.each())
                                 logger->emit_rup_proof_line_under_reason(
                                     reason, WPBSum{} + (1_i * ! selectors.at(idx)) + (1_i * (result != rval)) >= 1_i, ProofLevel::Temporary);
                             logger->emit_rup_proof_line_under_reason(reason, WPBSum{} + (1_i * ! selectors.at(idx)) >= 1_i, ProofLevel::Temporary);
@@ -275,8 +277,9 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                         bool supported_as_extreme = state.in_domain(result, v) && (! others_limit || (min ? v <= *others_limit : v >= *others_limit));
                         bool supported_under_other = other_extreme && (min ? v > *other_extreme : v < *other_extreme);
                         if (! supported_as_extreme && ! supported_under_other) {
+                            auto result_values = logger ? state.copy_of_values(result) : IntervalSet<Integer>{};
                             auto justf = [&, var_i = var_i, v = v](const ReasonLiterals & reason) {
-                                for (auto r : state.each_value_immutable(result)) {
+                                for (auto r : result_values.each()) {
                                     if (min ? r >= v : r <= v)
                                         continue;
                                     // if var_i = v and result = r, no var can equal result, breaking al1
-- 
2.43.0


From aaa4a3260958cb9d9ba386ba3f55411f52f6838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 58/61] fix: bounds element's reasons claimed a bound for
 entries outside the result's range

An entry lying entirely to one side of the result's bounds is left out of
the hull, and need not satisfy the bound that is inferred from the others.
The reason nonetheless said that it did, so it was false and the line in
the proof said nothing.
---
 gcs/constraints/element/element.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/element/element.cc b/gcs/constraints/element/element.cc
index 0d7ac26..17a2a08 100644
--- a/gcs/constraints/element/element.cc
+++ b/gcs/constraints/element/element.cc
@@ -44,6 +44,7 @@ using std::function;
 using std::max;
 using std::min;
 using std::optional;
+using std::pair;
 using std::string;
 using std::stringstream;
 using std::unique_ptr;
@@ -471,7 +472,7 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                 gch::small_vector<size_t, dimensions_> elem;
                 optional<Integer> lowest_found, highest_found;
                 auto current_bounds = state.bounds(result_var);
-                vector<IntegerVariableID> considered_vars;
+                vector<pair<IntegerVariableID, pair<Integer, Integer>>> considered_vars;
                 auto collect_supported_bounds = [&](auto && self, unsigned d) -> void {
                     state.for_each_value_immutable(index_vars.at(d), [&](Integer x) {
                         if (lowest_found && *lowest_found <= current_bounds.first && highest_found && *highest_found >= current_bounds.second)
@@ -488,9 +489,9 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                             }
                             else {
                                 auto array_var = get_array_var<dimensions_>(elem, *array);
-                                if (array_has_nonconstants)
-                                    considered_vars.push_back(array_var);
                                 auto array_var_bounds = state.bounds(array_var);
+                                if (array_has_nonconstants)
+                                    considered_vars.emplace_back(array_var, array_var_bounds);
                                 if (current_bounds.second >= array_var_bounds.first && current_bounds.first <= array_var_bounds.second) {
                                     lowest_found = lowest_found ? min(*lowest_found, array_var_bounds.first) : array_var_bounds.first;
                                     highest_found = highest_found ? max(*highest_found, array_var_bounds.second) : array_var_bounds.second;
@@ -515,8 +516,17 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                     Reason reason;
                     if (inference.want_reasons()) {
                         ReasonLiterals extra;
-                        for (const auto & var : considered_vars)
-                            extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        // An entry that is entirely to one side of the result's bounds
+                        // was left out of the hull, and might not itself satisfy the
+                        // bound being inferred: what holds for it is that it is out.
+                        for (const auto & [var, var_bounds] : considered_vars) {
+                            if (var_bounds.first > current_bounds.second)
+                                extra.push_back(var > current_bounds.second);
+                            else if (var_bounds.second < current_bounds.first)
+                                extra.push_back(var < current_bounds.first);
+                            else
+                                extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        }
                         extra.push_back(result_var >= current_bounds.first);
                         extra.push_back(result_var <= current_bounds.second);
                         reason = with_extra(generic_reason(vector<IntegerVariableID>{index_vars.begin(), index_vars.end()}), std::move(extra));
-- 
2.43.0


From 7ee053984bcaedcf0af39181c97e5132937a2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 59/61] fix: XCSP sums that must not equal something lost
 solutions, through an auxiliary variable too narrow for the difference

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index 5d5e67c..d67b8ea 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -1199,13 +1199,10 @@ namespace
         auto build_sum_common(vector<XVariable *> & x_vars, const optional<vector<int>> & coeffs, XCondition & cond) -> void
         {
             WeightedSum cvs;
-            Integer range = 0_i;
             for (const auto & [idx, x] : enumerate(x_vars)) {
-                auto & mv = find_variable(x->id);
                 auto var = need_variable(x->id);
                 auto coeff = coeffs ? Integer{coeffs->at(idx)} : 1_i;
                 cvs += coeff * var;
-                range += abs(coeff) * max(abs(mv.lower), abs(mv.upper));
             }
 
             Integer bound = 0_i;
@@ -1224,12 +1221,7 @@ namespace
             case EQ: _problem.post(std::move(cvs) == bound); break;
             case GT: _problem.post(std::move(cvs) >= bound + 1_i); break;
             case GE: _problem.post(std::move(cvs) >= bound); break;
-            case NE: {
-                auto diff = create_aux_variable(-range, range, "ne");
-                cvs += 1_i * diff;
-                _problem.post(std::move(cvs) == bound);
-                _problem.post(NotEquals{diff, 0_c});
-            } break;
+            case NE: _problem.post(LinearNotEquals{std::move(cvs), bound}); break;
             case IN:
             case NOTIN: report_unsupported("sum", "set membership condition");
             }
-- 
2.43.0


From e335f91e55ef4f43963b3e4410f4582a3d1b5a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 60/61] fix: XCSP conditions that exclude an interval were
 taken as requiring it

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index d67b8ea..d110671 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -1177,6 +1177,10 @@ namespace
             case VARIABLE: rhs = need_variable(xc.var); break;
             case INTEGER: rhs = constant_variable(Integer{xc.val}); break;
             case INTERVAL:
+                if (xc.op == OrderType::NOTIN) {
+                    _problem.post(Or{innards::Literals{{result < Integer{xc.min}, result > Integer{xc.max}}}, innards::TrueLiteral{}});
+                    return;
+                }
                 _problem.post(WeightedSum{} + 1_i * result >= Integer{xc.min});
                 _problem.post(WeightedSum{} + 1_i * result <= Integer{xc.max});
                 return;
-- 
2.43.0


From 5251286fa1a8d4a510f8118d63435bbf61afe7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 61/61] fix: XCSP constraints asking for at least more
 occurrences than there are variables ended the program, rather than being
 unsatisfiable

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index d110671..8d1e8d8 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -385,7 +385,7 @@ namespace
         auto buildConstraintAtLeast(string, vector<XVariable *> & x_vars, int value, int k) -> void override
         {
             auto vars = need_variables(x_vars);
-            auto how_many = create_aux_variable(Integer{k}, Integer{static_cast<long long>(vars.size())}, "atleast");
+            auto how_many = create_aux_variable(Integer{k}, max(Integer{k}, Integer{static_cast<long long>(vars.size())}), "atleast");
             _problem.post(Count{vars, constant_variable(Integer{value}), how_many});
         }
 
-- 
2.43.0

