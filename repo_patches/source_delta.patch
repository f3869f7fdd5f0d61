From fec134d0f0989d670378d958100df305a1019993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 01/24] fix: n-ary comparison, implication, xor, minus and
 division terms

SMT-LIB declares =, <, <=, >, >= chainable, => right associative and
xor, -, / left associative. Term_manager::mk_term only looked at the
first two arguments (an assertion failure with assertions on, and the
remaining arguments silently dropped without them), n-ary = was
rejected, and * was limited to two factors.
---
 src/terms/Term_manager.cpp | 69 ++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..07d47d3 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -122,6 +122,14 @@ term_t Term_manager::mk_uninterpreted_constant(type_t type)
     return term_table->new_uninterpreted_constant(type);
 }
 
+static void check_min_arity(std::string const& op, std::span<term_t> args, std::size_t min_arity)
+{
+    if (args.size() < min_arity)
+    {
+        throw std::logic_error("not enough arguments for " + op);
+    }
+}
+
 // TODO: Maybe this should be in the rewriter?
 term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 {
@@ -161,29 +169,52 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
+    // (op a b c) means (and (op a b) (op b c)) for a chainable operator
+    auto mk_chain = [&](auto&& mk_binary) -> term_t
+    {
+        check_min_arity(op, args, 2);
+        if (args.size() == 2)
+        {
+            return mk_binary(args[0], args[1]);
+        }
+        std::vector<term_t> links;
+        for (std::size_t i = 0; i + 1 < args.size(); ++i)
+        {
+            links.push_back(mk_binary(args[i], args[i + 1]));
+        }
+        return mk_and(links);
+    };
+    // (op a b c) means (op (op a b) c) for a left associative operator
+    auto mk_left_assoc = [&](auto&& mk_binary) -> term_t
+    {
+        check_min_arity(op, args, 2);
+        term_t result = args[0];
+        for (term_t arg : args.subspan(1))
+        {
+            result = mk_binary(result, arg);
+        }
+        return result;
+    };
+
     if (op == ">=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_geq(args[0], args[1]);
+        return mk_chain([&](term_t x, term_t y) { return mk_arithmetic_geq(x, y); });
     }
     else if (op == "<=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_leq(args[0], args[1]);
+        return mk_chain([&](term_t x, term_t y) { return mk_arithmetic_leq(x, y); });
     }
     else if (op == "<")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_lt(args[0], args[1]);
+        return mk_chain([&](term_t x, term_t y) { return mk_arithmetic_lt(x, y); });
     }
     else if (op == ">")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_gt(args[0], args[1]);
+        return mk_chain([&](term_t x, term_t y) { return mk_arithmetic_gt(x, y); });
     }
     else if (op == "=")
     {
-        return mk_eq(args);
+        return mk_chain([&](term_t x, term_t y) { return mk_binary_eq(x, y); });
     }
     else if (op == "or")
     {
@@ -195,8 +226,14 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "=>")
     {
-        assert(args.size() == 2);
-        return mk_implies(args[0], args[1]);
+        // right associative: (=> a b c) means (=> a (=> b c))
+        check_min_arity(op, args, 2);
+        term_t result = args.back();
+        for (std::size_t i = args.size() - 1; i > 0; --i)
+        {
+            result = mk_implies(args[i - 1], result);
+        }
+        return result;
     }
     else if (op == "not")
     {
@@ -211,8 +248,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
         }
         else
         {
-            assert(args.size() == 2);
-            return mk_arithmetic_minus(args[0], args[1]);
+            return mk_left_assoc([&](term_t x, term_t y) { return mk_arithmetic_minus(x, y); });
         }
     }
     else if (op == "+")
@@ -225,8 +261,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "/")
     {
-        assert(args.size() == 2);
-        return mk_divides(args[0], args[1]);
+        return mk_left_assoc([&](term_t x, term_t y) { return mk_divides(x, y); });
     }
     else if (op == "ite")
     {
@@ -235,8 +270,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "xor")
     {
-        assert(args.size() == 2);
-        return mk_xor(args[0], args[1]);
+        return mk_left_assoc([&](term_t x, term_t y) { return mk_xor(x, y); });
     }
     else if (op == "distinct")
     {
@@ -613,7 +647,6 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     {
         return args[0];
     }
-    assert(args.size() == 2);
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
     assert(args.end() - pit <= 1);
-- 
2.43.0


From 2daf8593089b3c4508e1f8e55d7e79546119c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 02/24] fix: Long_fraction::inv() of values outside of the word
 representation

inv() read num and den even if the value is stored only in the mpq part
(or if the inverse does not fit in a word), so that dividing a term by
such a constant gave a wrong coefficient or failed an assertion.
---
 src/lra/Long_fraction.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..08775e4 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -419,11 +419,7 @@ public:
     }
 
     inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
+        return inverse();
     }
 };
 
-- 
2.43.0


From 7b5d4e578aa43eda92cb813c4bcfbb794852d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 03/24] fix: report nonlinear products and division by zero as
 errors

Both were checked only by an assertion (or by a division by zero inside
GMP): the solver was aborted, or continued with a wrong term.
---
 src/terms/Term_manager.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 07d47d3..c4c68f4 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -649,7 +649,6 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     }
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
-    assert(args.end() - pit <= 1);
 
     // fold all constants into a single value
     Rational val = 1;
@@ -665,6 +664,10 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     {
         return term_table->arithmetic_constant(val);
     }
+    if (args.end() - pit > 1)
+    {
+        throw std::logic_error("nonlinear multiplication is not supported");
+    }
     if (val == 1) // 1 * x -> x
     {
         return *pit;
@@ -698,8 +701,15 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
 
 term_t Term_manager::mk_divides(term_t t1, term_t t2)
 {
-    assert(term_table->is_arithmetic_constant(t2));
+    if (not term_table->is_arithmetic_constant(t2))
+    {
+        throw std::logic_error("division by a non-constant term is not supported");
+    }
     Rational const& value = term_table->arithmetic_constant_value(t2);
+    if (value.isZero())
+    {
+        throw std::logic_error("division by zero is not supported");
+    }
     if (term_table->is_arithmetic_constant(t1))
     {
         return term_table->arithmetic_constant(term_table->arithmetic_constant_value(t1) / value);
-- 
2.43.0


From 8e8e6f86a5e2302574835c54ebb9de7f8bcb5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 04/24] fix: do not create arithmetic products with coefficient
 1

(* (/ 1 2) (* 2 x)) was represented by a product 1*x different from the
term x, and an equality of these two terms failed an assertion.
---
 src/terms/Term_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index c4c68f4..f24cc9a 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -683,8 +683,8 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
         return term_table->arithmetic_product(val, *pit);
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
-        auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        auto coeff = term_table->coeff_of_product(poly_term) * val;
+        return coeff == 1 ? var : term_table->arithmetic_product(coeff, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 2e67a741c68c768435f9c2d199e7fa1cdf281441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 05/24] fix: substitute arguments in the bodies of defined
 functions

The rewriter never visited the children of a term (inverted condition),
lost the sign of negated terms, and could not rebuild an application of
an uninterpreted function: (define-fun p ((a Real)) Bool (< a 0)) was
applied without replacing its formal arguments.
---
 src/terms/Term_rewriter.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..76d59fd 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -5,6 +5,7 @@
 #include <unordered_map>
 
 #include "Term_manager.h"
+#include "Terms.h"
 
 namespace yaga::terms {
 
@@ -30,7 +31,14 @@ public:
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
 
-        toProcess.emplace_back(root);
+        // Only positive terms are rewritten, negation is restored when their result is used
+        auto get_rewritten = [&substitutions, this](term_t term) {
+            auto it = substitutions.find(tm.positive_term(term));
+            if (it == substitutions.end()) { return term; }
+            return tm.is_negated(term) ? opposite_term(it->second) : it->second;
+        };
+
+        toProcess.emplace_back(tm.positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
@@ -39,20 +47,23 @@ public:
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = tm.positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            if (tm.get_kind(current_term) == Kind::APP_TERM)
+            {
+                // the function symbol is not a child of an application
+                aux_args.push_back(tm.get_fnc_symbol(current_term));
+            }
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
-                bool child_changed = it != substitutions.end();
-                needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = get_rewritten(child);
+                needs_change |= newChild != child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
@@ -67,8 +78,7 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        return get_rewritten(root);
     }
 };
 
-- 
2.43.0


From 371eadb9cb5e0a5eacee791c9b7ff51a38b0d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 06/24] fix: Bool arguments and Bool results of uninterpreted
 functions

The congruence lemma ignored Bool arguments and results (so it was not a
valid lemma), the value of a Bool term ignored the polarity of its
literal, and a negated Bool argument or a negated application was
not found among the internalized terms.
---
 src/parser/Solver_wrapper.cpp      |  4 +--
 src/uf/Uninterpreted_functions.cpp | 40 +++++++++++++++++++++++++-----
 src/uf/Uninterpreted_functions.h   | 10 +++++++-
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..68341d1 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -234,14 +234,14 @@ void Internalizer_config::visit(term_t t)
             break;
         }
 
-        Variable var = solver.make_function_application(var_type, t);
+        Variable var = solver.make_function_application(var_type, term_manager.positive_term(t));
 
         switch (term_type) {
         case terms::types::real_type:
             insert_var(internal_rational_vars, t, var.ord());
             break;
         case terms::types::bool_type:
-            insert_var(internal_bool_vars, t, Literal(var.ord()));
+            insert_var(internal_bool_vars, term_manager.positive_term(t), Literal(var.ord()));
             break;
         }
 
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..9b7846d 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,9 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        if (auto lit = term_to_literal(t))
         {
-            return found->second.var();
+            return lit->var();
         }
         break;
     }
@@ -87,6 +85,20 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    assert(term_manager.get_type(t) == terms::types::bool_type);
+
+    // only positive terms are mapped to literals
+    terms::term_t positive = term_manager.positive_term(t);
+    auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == positive; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -168,7 +180,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
             bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = bool_model_value != term_to_literal(t).value().is_negation();
             break;
         }
         }
@@ -270,7 +282,21 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
-    case terms::types::real_type:
+    case terms::types::bool_type: {
+        if (t == u) {
+            return;
+        }
+
+        // forbid the current value of t and the current value of u
+        for (terms::term_t term : {t, u}) {
+            if (auto lit = term_to_literal(term)) {
+                bool value = std::get<bool>(evaluate(term, trail).value);
+                result_clause.push_back(value ? ~lit.value() : lit.value());
+            }
+        }
+        break;
+    }
+    case terms::types::real_type: {
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
         p.sub(term_to_poly(u));
@@ -311,6 +337,8 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
         }
 
         result_clause.push_back(lit);
+        break;
+    }
     }
 }
 
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..7953af9 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,14 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Get the literal which represents a bool term
+     *
+     * @param t bool term to check
+     * @return literal which is true iff @p t is true or std::nullopt if there is none (@p t is a
+     * constant)
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
@@ -163,7 +171,7 @@ private:
 
     /** Propagate the (dis)equality of terms @p t and @p u to the @p trail. Create a
      * linear constraint that forbids the current dis/equality of the terms and add it to the
-     * conflict @p result_clause
+     * conflict @p result_clause. For bool terms, add literals which forbid their current values.
      *
      * @param t term to compare
      * @param u term to compare
-- 
2.43.0


From 653fff802072b87c19413b8aff4275dfcfc9e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 07/24] fix: constant false as an argument of an uninterpreted
 function

The constant true was accepted by the internalizer, its negation was not.
---
 src/parser/Solver_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 68341d1..e4b7039 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -325,7 +325,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (t != terms::true_term and t != terms::false_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
-- 
2.43.0


From 59363a240856507217f19575cd8e426ae9b2801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 08/24] fix: decision level of equalities propagated by the UF
 plugin

A variable which occurs in both compared terms may be missing in the
linear constraint, which then has a value at a lower decision level. The
literal was lost after backtracking between these two levels, Bool_theory
could assign it a value which contradicts the values of its variables.
---
 src/uf/Uninterpreted_functions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 9b7846d..461dee9 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -331,7 +331,13 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // the constraint has a value as soon as all variables of p are assigned (variables
+            // which occur both in t and u may be missing in p)
+            int propagation_level = 0;
+            for (int var_ord : p.vars) {
+                Variable var(var_ord, Variable::rational);
+                propagation_level = std::max<int>(propagation_level, trail.decision_level(var).value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From 9802abdda432686bec947818ae66c0f629162b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 09/24] fix: variables reported as effectively decided more
 than once

With --prop-rational, a variable which is still in the queue of
effectively decided variables was added again, which broke the queue.
---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From d076a7b1cee8af98fbe4240195e20d7d72481268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 10/24] fix: sign of numerators normalised by the Long_fraction
 constructor

---
 src/lra/Long_fraction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 08775e4..92c2370 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -646,7 +646,8 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            // the division has to be signed, `common` is unsigned
+            num = static_cast<word>(lword(n) / lword(common));
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From ab9326a786b8d2ebcf00944596a4546cfce70dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 11/24] fix: modulo of word-sized fractions with operands of
 different signs

---
 src/lra/Long_fraction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 92c2370..02ee115 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -409,8 +409,9 @@ public:
     Long_fraction operator%(const Long_fraction& d) {
         assert(isInteger() && d.isInteger());
         if (wordPartValid() && d.wordPartValid()) {
-            uword w = absVal(num % d.num);  // Largest value is absVal(INT_MAX % INT_MIN) = INT_MAX
-            return (word)(d.num > 0 ? w : -w); // No overflow since 0 <= w <= INT_MAX
+            lword w = lword(num) % d.num; // Computed in lword since INT_MIN % -1 overflows word
+            if (w != 0 && (w < 0) != (d.num < 0)) w += d.num;
+            return (word)w; // No overflow since absVal(w) < absVal(d.num)
         }
         Long_fraction r = (*this) / d;
         r = r.floor();
-- 
2.43.0


From deb8fb46b1a2b822f8cd68084704e54ed3f9a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 12/24] fix: overflow in exact division of the minimal word by
 -1

---
 src/lra/Long_fraction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.cpp b/src/lra/Long_fraction.cpp
index 16cc1fe..5bd2d97 100644
--- a/src/lra/Long_fraction.cpp
+++ b/src/lra/Long_fraction.cpp
@@ -175,7 +175,9 @@ namespace yaga {
             word num = n.num;
             word den = d.num;
             word quo;
-            if (den != 0) {
+            if (den == -1) {
+                return -n; // INT_MIN / -1 overflows word
+            } else if (den != 0) {
                 quo = num / den;
                 return quo;
             } else {
-- 
2.43.0


From aa5a4e9e0b663a5e5afe530bc370427cffd97231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 13/24] fix: answer repeated check-sat commands about all
 assertions made so far

A second check kept the assignment of the first one, so that clauses added in
between were not watched, and the clauses of terms internalized before were
dropped.
---
 src/Solver.cpp                | 7 +++++++
 src/parser/Solver_wrapper.cpp | 5 ++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..a2b2c5c 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -168,6 +168,13 @@ void Solver::init()
         dispatcher.on_variable_resize(type, model->num_vars());
     }
 
+    // forget assignments made by the previous check() (including level 0)
+    if (!trail().empty())
+    {
+        dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/-1);
+        trail().clear();
+    }
+
     // reset solver state
     total_conflicts = 0;
     total_decisions = 0;
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index e4b7039..01f4cd7 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -27,9 +27,8 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
-    solver.init();
-
+    // Cnfize and assert clauses to the solver (clauses of terms which have been internalized in
+    // a previous check are still in the database)
     internalizer.visit(assertions);
 
     // add top level assertions to the solver
-- 
2.43.0


From 72860cac2b2ab34fab7a69b37a78813a065ed1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 14/24] fix: reset the counters of conflict and learned clauses
 in each check

---
 src/Solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index a2b2c5c..666b8bb 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -177,6 +177,8 @@ void Solver::init()
 
     // reset solver state
     total_conflicts = 0;
+    total_conflict_clauses = 0;
+    total_learned_clauses = 0;
     total_decisions = 0;
     total_restarts = 0;
     dispatcher.on_init(db(), trail());
-- 
2.43.0


From f42782a626fdbd9e8453c60586d7637a54f29871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 15/24] fix: keep the queues of Generalized_vsids in step with
 reset and rescaled scores

---
 src/variable_order/Generalized_vsids.cpp | 9 ++++++---
 src/variable_order/Generalized_vsids.h   | 7 ++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1485d1a..891827a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,14 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    for (std::size_t type = 0; type < vsids.size(); ++type)
     {
-        for (auto& score : scores)
+        for (std::size_t ord = 0; ord < vsids[type].size(); ++ord)
         {
-            score = 0.0f;
+            Variable var{static_cast<int>(ord), static_cast<Variable::Type>(type)};
+            vsids[type][ord] = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..d2eb3d8 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -165,11 +165,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From 3d024ef8cbb1362694f73edc92becdcfaedfa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 16/24] fix: report undeclared and redeclared symbols and wrong
 arguments of functions as errors

---
 src/parser/Parser_context.cpp | 58 +++++++++++++++++++++++++++++------
 src/parser/Parser_context.h   |  3 ++
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 9180c6a..947f91b 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -9,6 +9,30 @@
 
 namespace yaga::parser {
 
+static void check_arity(std::string const& name, std::size_t expected, std::size_t actual)
+{
+    if (expected != actual)
+    {
+        throw std::logic_error("wrong number of arguments of " + name);
+    }
+}
+
+static void check_type(std::string const& name, type_t expected, type_t actual)
+{
+    if (expected != actual)
+    {
+        throw std::logic_error("wrong sort of an argument or of the value of " + name);
+    }
+}
+
+void Parser_context::check_not_declared(std::string const& name) const
+{
+    if (defined_functions.has(name) || term_manager.get_term_by_name(name).has_value())
+    {
+        throw std::logic_error("symbol is already declared: " + name);
+    }
+}
+
 void Parser_context::add_let_bindings(let_bindings_t&& bindings)
 {
     let_records.push_frame();
@@ -37,12 +61,19 @@ term_t Parser_context::get_term_for_symbol(std::string const& symbol)
     }
     if (defined_functions.has(symbol))
     {
-        auto defined = defined_functions.get(symbol);
-        assert(defined.signature.args.empty());
+        auto const& defined = defined_functions.get(symbol);
+        check_arity(symbol, defined.signature.args.size(), 0);
         return defined.body;
     }
+    if (declared_functions.has(symbol))
+    {
+        check_arity(symbol, declared_functions.get(symbol).arg_types.size(), 0);
+    }
     auto t = term_manager.get_term_by_name(symbol);
-    assert(t.has_value());
+    if (!t.has_value())
+    {
+        throw std::logic_error("undeclared symbol: " + symbol);
+    }
     return t.value();
 }
 
@@ -77,6 +108,7 @@ void Parser_context::model(Default_model_visitor& visitor)
 
 term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::string const& name)
 {
+    check_not_declared(name);
     term_t term = term_manager.mk_uninterpreted_constant(sort);
     term_manager.set_term_name(term, name);
     return term;
@@ -84,6 +116,7 @@ term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::s
 
 void Parser_context::declare_uninterpreted_function(terms::type_t ret_type, std::vector<terms::type_t> && arg_sorts, std::string const& name)
 {
+    check_not_declared(name);
     term_t fnc_term = term_manager.mk_uninterpreted_constant(ret_type);
     term_manager.set_term_name(fnc_term, name);
 
@@ -107,14 +140,12 @@ term_t Parser_context::resolve_term(std::string const& name, std::vector<term_t>
         return resolve_defined_function(name, args);
     } else if (declared_functions.has(name))
     {
-        auto declared_function = declared_functions.get(name);
-        auto expected_count = declared_function.arg_types.size();
-        assert(expected_count == args.size()); (void) expected_count;
+        auto const& declared_function = declared_functions.get(name);
+        check_arity(name, declared_function.arg_types.size(), args.size());
 
         for (size_t i = 0; i < args.size(); ++i)
         {
-            type_t expected_type = declared_function.arg_types[i];
-            assert(expected_type == term_manager.get_type(args[i])); (void) expected_type;
+            check_type(name, declared_function.arg_types[i], term_manager.get_type(args[i]));
         }
 
         return term_manager.mk_app(name, declared_function.return_type, args);
@@ -137,6 +168,8 @@ std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 void Parser_context::store_defined_fun(std::string const& name, term_t definition,
                                        std::vector<term_t> && formal_args, type_t return_sort)
 {
+    check_not_declared(name);
+    check_type(name, return_sort, term_manager.get_type(definition));
     defined_functions.insert(name, Function_template(name, std::move(formal_args), return_sort, definition));
 }
 
@@ -161,8 +194,13 @@ term_t Parser_context::resolve_defined_function(std::string const& name, std::sp
 term_t resolve(Function_template const& function_template, std::span<term_t> args, terms::Term_manager& term_manager)
 {
     using subst_map_t = std::unordered_map<term_t, term_t>;
-    auto size = function_template.signature.args.size();
-    assert(size == args.size());
+    auto const& signature = function_template.signature;
+    auto size = signature.args.size();
+    check_arity(signature.name, size, args.size());
+    for (std::size_t i = 0; i != size; ++i)
+    {
+        check_type(signature.name, term_manager.get_type(signature.args[i]), term_manager.get_type(args[i]));
+    }
     subst_map_t subst_map;
     for (std::size_t i = 0u; i != size; ++i)
     {
diff --git a/src/parser/Parser_context.h b/src/parser/Parser_context.h
index 4a11127..cc8d67b 100644
--- a/src/parser/Parser_context.h
+++ b/src/parser/Parser_context.h
@@ -206,6 +206,9 @@ private:
     Solver_wrapper solver;
 
     term_t resolve_defined_function(std::string const& name, std::span<term_t> args);
+
+    // throw an exception if @p name is a name of a declared or defined symbol
+    void check_not_declared(std::string const& name) const;
 };
 
 }
-- 
2.43.0


From d7a4dc916a68b7e7e2124cbd6c37d3d9ac48ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 17/24] fix: report terms with operands of a wrong sort or
 number as errors

---
 src/parser/Smt2_parser.cpp |  4 ++++
 src/terms/Term_manager.cpp | 43 ++++++++++++++++++++++++++++++++++++++
 src/terms/Term_manager.h   |  3 +++
 3 files changed, 50 insertions(+)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..105acb9 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -198,6 +198,10 @@ bool Smt2_command_context::parse_command()
         try
         {
             term_t term = term_parser.parse_term();
+            if (term_manager.get_type(term) != terms::types::bool_type)
+            {
+                throw std::logic_error("asserted term is not of sort Bool");
+            }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
             output << "(error \"" << e.what() << "\")" << std::endl;
diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index f24cc9a..52e9375 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -130,6 +130,47 @@ static void check_min_arity(std::string const& op, std::span<term_t> args, std::
     }
 }
 
+void Term_manager::check_operands(std::string const& op, std::span<term_t> args) const
+{
+    auto check_types = [&](std::span<term_t> operands, type_t type)
+    {
+        for (term_t operand : operands)
+        {
+            if (get_type(operand) != type)
+            {
+                throw std::logic_error("wrong sort of an argument of " + op);
+            }
+        }
+    };
+
+    if (op == "not" || op == "and" || op == "or" || op == "=>" || op == "xor")
+    {
+        check_min_arity(op, args, 1);
+        check_types(args, types::bool_type);
+    }
+    else if (op == "<" || op == "<=" || op == ">" || op == ">=" || op == "+" || op == "-" || op == "*" || op == "/")
+    {
+        check_min_arity(op, args, 1);
+        check_types(args, types::real_type);
+    }
+    else if (op == "=" || op == "distinct")
+    {
+        check_min_arity(op, args, 2);
+        check_types(args, get_type(args[0]));
+    }
+    else if (op == "ite")
+    {
+        check_min_arity(op, args, 3);
+        check_types(args.first(1), types::bool_type);
+        check_types(args.subspan(1, 2), get_type(args[1]));
+    }
+
+    if ((op == "not" && args.size() > 1) || (op == "ite" && args.size() > 3))
+    {
+        throw std::logic_error("too many arguments for " + op);
+    }
+}
+
 // TODO: Maybe this should be in the rewriter?
 term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 {
@@ -196,6 +237,8 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
         return result;
     };
 
+    check_operands(op, args);
+
     if (op == ">=")
     {
         return mk_chain([&](term_t x, term_t y) { return mk_arithmetic_geq(x, y); });
diff --git a/src/terms/Term_manager.h b/src/terms/Term_manager.h
index 313d668..4a9c3b3 100644
--- a/src/terms/Term_manager.h
+++ b/src/terms/Term_manager.h
@@ -168,6 +168,9 @@ public:
     [[nodiscard]] Rational const& coeff_of_product(term_t arithmetic_product) const;
 
 private:
+    // throw an exception if @p args are not valid arguments of the operation @p op
+    void check_operands(std::string const& op, std::span<term_t> args) const;
+
     term_t poly_to_term(poly_t const& poly);
     poly_t term_to_poly(term_t term);
 
-- 
2.43.0


From 2c9d5864c7afb9cf08082758cc3fb5c6b19f1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 18/24] fix: report a missing or repeated set-logic command as
 an error

---
 src/Yaga.h                    |  4 ++--
 src/parser/Solver_wrapper.cpp | 10 ++++++++++
 src/parser/Solver_wrapper.h   |  3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index da2588c..29b556b 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -216,10 +216,10 @@ private:
     Solver smt;
 
     // pointer to the LRA plugin or nullptr if this solver does not support LRA
-    Linear_arithmetic* lra;
+    Linear_arithmetic* lra = nullptr;
 
     // pointer to the UF plugin or nullptr if this solver does not support UF
-    Uninterpreted_functions* uf;
+    Uninterpreted_functions* uf = nullptr;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_mapping;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, Literal> > bool_mapping;
 };
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 01f4cd7..b7803dd 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -13,7 +13,12 @@ Solver_wrapper::Solver_wrapper(terms::Term_manager& term_manager, Options const&
       solver(term_manager, internalizer_config.rational_vars(), internalizer_config.bool_vars()) {}
 
 void Solver_wrapper::set_logic(Initializer const& init) {
+    if (has_logic)
+    {
+        throw std::logic_error("the logic has already been set");
+    }
     solver.set_logic(init, options);
+    has_logic = true;
 }
 
 bool Solver_wrapper::has_uf() {
@@ -22,6 +27,11 @@ bool Solver_wrapper::has_uf() {
 
 Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
 {
+    if (!has_logic)
+    {
+        throw std::logic_error("use (set-logic) before (check-sat)");
+    }
+
     if (std::ranges::any_of(assertions, [](term_t t) { return t == terms::false_term; }))
     {
         return Solver_answer::UNSAT;
diff --git a/src/parser/Solver_wrapper.h b/src/parser/Solver_wrapper.h
index fce7583..196c8d3 100644
--- a/src/parser/Solver_wrapper.h
+++ b/src/parser/Solver_wrapper.h
@@ -131,6 +131,9 @@ class Solver_wrapper
 
     Yaga solver;
 
+    // has the logic been set?
+    bool has_logic = false;
+
 public:
     Solver_wrapper(terms::Term_manager& term_manager, Options const& options);
 
-- 
2.43.0


From 9112d0bcc0d07904027c7a49affee1bebc4c23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 19/24] fix: quote symbols in printed models where necessary

---
 src/parser/Smt2_parser.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 105acb9..1deba95 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -1,7 +1,10 @@
 #include "Smt2_parser.h"
 
+#include <algorithm>
+#include <array>
 #include <stdexcept>
 #include <fstream>
+#include <string_view>
 #include <vector>
 
 #include "Smt2_term_parser.h"
@@ -30,6 +33,27 @@ class Print_model final : public Default_model_visitor {
             output << std::get<Rational>(var);
     }
 
+    // get name of a symbol as it is written in a script (quoted if it is not a simple symbol)
+    static std::string quoted(std::string_view name) {
+        static constexpr std::string_view special = "~!@$%^&*+=<>.?/_-";
+        static constexpr std::array reserved = std::to_array<std::string_view>({
+            "assert", "as", "!", "check-sat", "declare-const", "declare-fun", "declare-sort", "define-const",
+            "define-fun", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info",
+            "get-model", "get-option", "get-unsat-core", "get-value", "_", "let", "match", "par", "pop",
+            "push", "reset", "set-info", "set-logic", "set-option", "exists", "forall", "BINARY", "DECIMAL",
+            "HEXADECIMAL", "NUMERAL", "STRING"
+        });
+
+        auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+        auto is_symbol_char = [&](char c) {
+            return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || is_digit(c) || special.find(c) != special.npos;
+        };
+
+        bool const is_simple = !name.empty() && !is_digit(name.front()) && std::ranges::all_of(name, is_symbol_char)
+                               && std::ranges::find(reserved, name) == reserved.end();
+        return is_simple ? std::string{name} : "|" + std::string{name} + "|";
+    }
+
     void print_type(type_t type) {
         switch (type) {
         default:
@@ -73,7 +97,7 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun " << quoted(*name) << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +116,7 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun " << quoted(*name) << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From eeeacf7a54231d129516a1b8f04606225e3846bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 20/24] fix: accept lists as values of set-info and set-option

---
 src/parser/Smt2_term_parser.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index e8ca346..ae6b59d 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -293,9 +293,20 @@ std::string Smt2_term_parser::parse_keyword()
 std::string Smt2_term_parser::parse_sexpr()
 {
     // TODO: Check the token?
-    Token tok = lexer.next_token();
-    (void)tok;
-    return lexer.token_string();
+    std::string sexpr;
+    int depth = 0;
+    do
+    {
+        Token tok = lexer.next_token();
+        if (tok == Token::EOF_TOK)
+        {
+            lexer.unexpected_token_error(tok);
+        }
+        depth += tok == Token::LPAREN_TOK ? 1 : 0;
+        depth -= tok == Token::RPAREN_TOK ? 1 : 0;
+        sexpr += (sexpr.empty() ? "" : " ") + std::string{lexer.token_string()};
+    } while (depth > 0);
+    return sexpr;
 }
 
 std::vector<Sorted_var> Smt2_term_parser::parse_sorted_var_list()
-- 
2.43.0


From 5eea7967e6ba63f290309f8ce9a4d8ae99d8248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 21/24] fix: report a missing term or body of a let binding as
 an error

---
 src/parser/Smt2_term_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index ae6b59d..8374bf4 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -104,11 +104,11 @@ term_t Smt2_term_parser::parse_term() {
         break;
         case Token::RPAREN_TOK:
         {
-            if (ctx_stack.empty())
+            // should only be here if we are expecting arguments
+            if (ctx_stack.empty() || get<ParseCtx>(ctx_stack.back()) != ParseCtx::NEXT_ARG)
             {
                 lexer.unexpected_token_error(token);
             }
-            // should only be here if we are expecting arguments
             assert(get<ParseCtx>(ctx_stack.back()) == ParseCtx::NEXT_ARG);
             // Construct the application term specified by ctx_stack.back()
             auto& op = get<OpInfo>(ctx_stack.back());
-- 
2.43.0


From 543ab688e5d5d32b194def02f3d78d4c57eaa51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 22/24] fix: report symbols which are bound twice in a let or
 define-fun as errors

---
 src/parser/Parser_context.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 947f91b..99384f9 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -1,5 +1,7 @@
 #include "Parser_context.h"
 
+#include <unordered_set>
+
 #include "Solver_wrapper.h"
 #include "Term_manager.h"
 #include "Terms.h"
@@ -25,6 +27,14 @@ static void check_type(std::string const& name, type_t expected, type_t actual)
     }
 }
 
+static void check_not_bound(std::unordered_set<std::string>& bound, std::string const& name)
+{
+    if (!bound.insert(name).second)
+    {
+        throw std::logic_error("symbol is bound more than once: " + name);
+    }
+}
+
 void Parser_context::check_not_declared(std::string const& name) const
 {
     if (defined_functions.has(name) || term_manager.get_term_by_name(name).has_value())
@@ -36,8 +46,10 @@ void Parser_context::check_not_declared(std::string const& name) const
 void Parser_context::add_let_bindings(let_bindings_t&& bindings)
 {
     let_records.push_frame();
+    std::unordered_set<std::string> bound;
     for (auto&& [name, term] : bindings)
     {
+        check_not_bound(bound, name);
         let_records.add_binding(name, term);
     }
 }
@@ -157,8 +169,10 @@ std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 {
     std::vector<term_t> ret;
     ret.reserve(sorted_vars.size());
+    std::unordered_set<std::string> bound;
     for (auto && sorter_var : sorted_vars)
     {
+        check_not_bound(bound, sorter_var.var_name);
         term_t var = term_manager.mk_uninterpreted_constant(sorter_var.type);
         let_records.add_binding(sorter_var.var_name, var);
         ret.push_back(var);
-- 
2.43.0


From 43cd980a9f8c559b0f75ca2abc9c90f72450445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 23/24] fix: propagate unassigned equalities only if bounds of
 variables imply them

is_implied() compared just one bound of the left-hand side of an equality with
the constant. With prop_unassigned, x = 5 was propagated if 5 was an upper bound
of x and x != 5 was propagated if 5 was not a lower bound of x.
---
 src/lra/Bounds.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/lra/Bounds.h   | 11 +++++++++++
 2 files changed, 53 insertions(+)

diff --git a/src/lra/Bounds.cpp b/src/lra/Bounds.cpp
index 222b14d..a4c21f5 100644
--- a/src/lra/Bounds.cpp
+++ b/src/lra/Bounds.cpp
@@ -208,6 +208,11 @@ bool Bounds::is_implied(Models const& models, Constraint const& cons)
         return false;
     }
 
+    if (cons.pred() == Order_predicate::eq)
+    {
+        return is_equality_implied(models, cons);
+    }
+
     auto bound = cons.rhs();
     auto [var_it, var_end] = cons.vars();
     auto coef_it = cons.coef().begin();
@@ -241,6 +246,43 @@ bool Bounds::is_implied(Models const& models, Constraint const& cons)
                                     : cons.pred()(Rational{0}, bound);
 }
 
+bool Bounds::is_equality_implied(Models const& models, Constraint const& cons)
+{
+    assert(cons.pred() == Order_predicate::eq);
+
+    // compute lower and upper bound of `rhs - lhs`
+    std::optional<Rational> min{cons.rhs()};
+    std::optional<Rational> max{cons.rhs()};
+    auto [var_it, var_end] = cons.vars();
+    auto coef_it = cons.coef().begin();
+    for (; var_it != var_end; ++var_it, ++coef_it)
+    {
+        if (models.owned().is_defined(*var_it))
+        {
+            auto value = *coef_it * models.owned().value(*var_it);
+            min = min ? std::optional{*min - value} : std::nullopt;
+            max = max ? std::optional{*max - value} : std::nullopt;
+        }
+        else
+        {
+            auto lb = bounds[*var_it].lower_bound(models);
+            auto ub = bounds[*var_it].upper_bound(models);
+            if (*coef_it < 0)
+            {
+                std::swap(lb, ub);
+            }
+            min = min && ub ? std::optional{*min - *coef_it * ub->value()} : std::nullopt;
+            max = max && lb ? std::optional{*max - *coef_it * lb->value()} : std::nullopt;
+        }
+    }
+
+    if (cons.lit().is_negation())
+    {
+        return (min && *min > 0) || (max && *max < 0);
+    }
+    return min && max && *min == 0 && *max == 0;
+}
+
 bool Bounds::implies_equality(Constraint const& cons) const
 {
     return cons.pred() == Order_predicate::eq && !cons.lit().is_negation();
diff --git a/src/lra/Bounds.h b/src/lra/Bounds.h
index 19cb279..4b3eaa1 100644
--- a/src/lra/Bounds.h
+++ b/src/lra/Bounds.h
@@ -3,6 +3,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <optional>
+#include <utility>
 #include <vector>
 
 #include "Rational.h"
@@ -116,6 +118,15 @@ private:
         Rational unbounded_coef{0};
     };
 
+    /** Check whether an unassigned equality (or its negation) can be deduced to be true in current
+     * trail
+     *
+     * @param models partial assignment of variables
+     * @param cons checked equality or negation of an equality
+     * @return true iff bounds of variables imply @p cons
+     */
+    bool is_equality_implied(Models const& models, Constraint const& cons);
+
     /** Count distinct bounds in @p bounds and all their dependencies
      *
      * @tparam Bound_range range of bounds
-- 
2.43.0


From 89e61646f5a0ff7b43141ad85953f582314756c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 24/24] fix: Yaga::init removes assignments and variables of
 the previous logic

init() only removed the clauses: after a check() the trail still held
assignments of variables which set_logic() then removes from the models,
and the next check() accessed them out of range.
---
 src/Yaga.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index bb7edbe..6fbd6a6 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -64,6 +64,13 @@ void Yaga::init()
 {
     smt.db().learned().clear();
     smt.db().asserted().clear();
+
+    // remove assignments made by the previous check() together with all variables
+    smt.trail().clear();
+    for (auto [type, model] : smt.trail().models())
+    {
+        smt.trail().resize(type, 0);
+    }
 }
 
 void Yaga::set_logic(Initializer const& init, Options const& options) {
-- 
2.43.0

