From fae82f014c1ab07e981ba4ca83ede355e8f0e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 01/18] fix: a VecRef holding a single element has length 1,
 not 0

---
 crates/utils/src/vecref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utils/src/vecref.rs b/crates/utils/src/vecref.rs
index ba61662..ef491e0 100644
--- a/crates/utils/src/vecref.rs
+++ b/crates/utils/src/vecref.rs
@@ -36,7 +36,7 @@ impl<'a, T> VecRef<'a, T> {
             VecRef::Vec(v) => v.len(),
             VecRef::Ref(v) => v.len(),
             VecRef::RefRef(v) => v.len(),
-            VecRef::Single(_) => 0,
+            VecRef::Single(_) => 1,
             VecRef::Empty => 0,
         }
     }
-- 
2.43.0


From 22c6233e5128c78ecf99e0d780c504e6706e4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 02/18] fix: the FALSE formula is built from the false function
 symbol

---
 crates/cryptovampire/src/formula/function/builtin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/function/builtin.rs b/crates/cryptovampire/src/formula/function/builtin.rs
index 4fa2284..62198ca 100644
--- a/crates/cryptovampire/src/formula/function/builtin.rs
+++ b/crates/cryptovampire/src/formula/function/builtin.rs
@@ -70,7 +70,7 @@ pub static TRUE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
 pub static TRUE_ARC: ARichFormula<'static> = TRUE.clone_as_arc();
 
 #[dynamic]
-pub static FALSE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
+pub static FALSE: RichFormula<'static> = RichFormula::Fun(*FALSE_F, Arc::new([]));
 
 #[dynamic]
 pub static AND: Function<'static> = new_static_function(InnerFunction::Bool(Booleans::Connective(
-- 
2.43.0


From 7b25cc82406fc4a2c38cdec7513ecc2c280df39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 03/18] fix: an assertion or query that is a bare condition
 keeps its variables and only uses declared functions

---
 .../general_assertions/assertion_preprocessor.rs   | 10 +++-------
 crates/cryptovampire/src/problem/problem/mod.rs    | 14 +++++++++++---
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..0e06442 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -61,10 +61,6 @@ fn preprocess_after_eval<'bump>(
     env: &Evaluator<'bump>,
 ) -> RichFormula<'bump> {
     match assertion {
-        RichFormula::Var(v) if v.sort().is_evaluatable() => Some(RichFormula::Var(Variable {
-            sort: v.sort().maybe_evaluated_sort().unwrap(),
-            ..*v
-        })),
         RichFormula::Fun(fun, args) => match fun.as_ref().maybe_get_evaluated() {
             Some(f) => Some(RichFormula::Fun(
                 f,
@@ -86,7 +82,7 @@ fn preprocess_after_eval<'bump>(
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
                         Some({
                             let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
+                                free_variables.iter().map(Variable::id).collect_vec(),
                                 args,
                             ));
                             let content = preprocess_after_eval(content.as_ref(), env);
@@ -94,12 +90,12 @@ fn preprocess_after_eval<'bump>(
                             let q = match inner {
                                 InnerQuantifier::Forall { .. } => {
                                     formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 InnerQuantifier::Exists { .. } => {
                                     formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 _ => unreachable!(),
diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..b6a3117 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -237,13 +237,21 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
 
         // assertions.sort();
 
+        // the evaluated functions only exist in the symbolic realm
+        let propagate = |f: &ARichFormula<'bump>| {
+            if env.is_symbolic_realm() && !env.no_bitstring_functions() {
+                propagate_evaluate(f.as_ref(), &self.evaluator)
+            } else {
+                f.shallow_copy()
+            }
+        };
+
         trace!("[G]\t- user assertions...");
         assertions.push(Axiom::Comment("user asserts".into()));
         assertions.extend(
             self.assertions
                 .iter()
-                .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
+                .map(propagate)
                 .map(Axiom::base),
         );
         trace!("[G]\t\t[DONE]");
@@ -251,7 +259,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: propagate(&self.query),
         });
 
         trace!("[G]\t\t[DONE]");
-- 
2.43.0


From 95b87d1c2ad3ae9a13a711aff4018772cae8bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:20 +0000
Subject: [PATCH 04/18] fix: the fresh variables of a protocol avoid step
 parameters and the contents of assignments

---
 crates/cryptovampire/src/problem/protocol.rs | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/cryptovampire/src/problem/protocol.rs b/crates/cryptovampire/src/problem/protocol.rs
index 3bc5a79..65e765f 100644
--- a/crates/cryptovampire/src/problem/protocol.rs
+++ b/crates/cryptovampire/src/problem/protocol.rs
@@ -2,6 +2,7 @@ use once_cell::sync::OnceCell;
 use std::rc::Rc;
 
 use itertools::{chain, Itertools};
+use logic_formula::iterators::UsedVariableIterator;
 
 use crate::formula::{formula::ARichFormula, variable::uvar};
 use utils::implvec;
@@ -137,17 +138,20 @@ impl<'bump> Protocol<'bump> {
 
     pub fn max_var(&self) -> uvar {
         *self.max_var.get_or_init(|| {
-            self.steps()
-                .iter()
-                .flat_map(|s| s.occuring_variables())
-                .chain(
-                    self.memory_cells()
-                        .iter()
-                        .flat_map(|c| c.assignements().iter().flat_map(|a| a.fresh_vars.iter())),
-                )
-                .map(|v| v.id)
-                .max()
-                .unwrap_or(0)
+            let assignements = || self.memory_cells().iter().flat_map(|c| c.assignements());
+            chain!(
+                self.steps()
+                    .iter()
+                    .flat_map(|s| chain!(s.free_variables(), s.occuring_variables()))
+                    .copied(),
+                assignements().flat_map(|a| a.fresh_vars.iter()).copied(),
+                UsedVariableIterator::with(
+                    assignements().flat_map(|a| chain!(a.args.iter(), [&a.content]))
+                ),
+            )
+            .map(|v| v.id)
+            .max()
+            .unwrap_or(0)
         }) + 1
     }
 
-- 
2.43.0


From 136d8c860fe855a1e6d75759bfa4953d8f0d3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 05/18] fix: the fresh variables of a problem avoid the
 variables of its ta quantifiers and of its protocol

---
 crates/cryptovampire/src/problem/problem/mod.rs | 16 ++++++++++++++--
 crates/cryptovampire/src/subterm/mod.rs         |  7 ++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index b6a3117..0fb7b51 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -97,12 +97,24 @@ impl<'bump> Problem<'bump> {
     }
 
     pub fn max_var(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms())
+            .max_var_or_max(self.max_declared_var())
     }
 
     /// [Self::max_var] without [Self::extra_instances]
     pub fn max_var_no_extras(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms_no_extra()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms_no_extra())
+            .max_var_or_max(self.max_declared_var())
+    }
+
+    /// [Self::max_var] restricted to the protocol and the variables of the ta quantifiers,
+    /// which need not occur in any top level term
+    fn max_declared_var(&self) -> uvar {
+        self.functions
+            .iter()
+            .filter_map(|f| f.as_quantifer())
+            .flat_map(|q| itertools::chain!(q.free_variables.iter(), q.bound_variables.iter()))
+            .max_var_or_max(self.protocol.max_var())
     }
 
     pub fn container(&self) -> &'bump ScopedContainer<'bump> {
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..65a7f58 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -250,10 +250,11 @@ where
         &'a self,
         funs: impl Iterator<Item = Function<'bump>> + 'a,
         env: &impl KnowsRealm,
-        ptcl: &'a Protocol<'bump>,
+        pbl: &'a Problem<'bump>,
         keep_guard: bool,
     ) -> impl Iterator<Item = ARichFormula<'bump>> + 'a {
-        let max_var = ptcl.max_var() + 1;
+        let ptcl = pbl.protocol();
+        let max_var = pbl.max_var();
         let x = Variable::new(max_var, self.sort());
         let max_var = max_var + 1;
         let x_f = x.into_aformula();
@@ -302,7 +303,7 @@ where
             })
             .cloned();
         trace!("{}:{}:{}", file!(), line!(), column!());
-        self.generate_special_functions_assertions(funs, env, pbl.protocol(), keep_guard)
+        self.generate_special_functions_assertions(funs, env, pbl, keep_guard)
     }
 
     /// whach out for variable clash
-- 
2.43.0


From 0c1e5d1bcdf1ccb0ea0e529f5a4e03ab01e9e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 06/18] fix: unfolding never binds a variable that is already
 in scope

---
 .../src/formula/utils/formula_expander.rs     | 29 ++++++++++++++-----
 crates/cryptovampire/src/subterm/mod.rs       |  9 +++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..b90a3e9 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -58,6 +58,9 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The variables in scope which are not bound by the search
+    #[builder(setter(into), default = "Rc::new([])")]
+    free_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -104,6 +107,13 @@ impl<'bump> UnfoldingState<'bump> {
         &self.bound_variables
     }
 
+    /// The variables that cannot be bound (again) by the search
+    fn variables_in_scope(&self) -> Vec<Variable<'bump>> {
+        chain!(self.bound_variables.iter(), self.free_variables.iter())
+            .copied()
+            .collect()
+    }
+
     /// Same as [Self::bound_variables()] but with an owned [Rc]
     pub fn owned_bound_variable(&self) -> Rc<[Variable<'bump>]> {
         self.bound_variables.clone()
@@ -214,7 +224,7 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = self.state.variables_in_scope();
         steps
             .into_iter()
             .map(|s| {
@@ -225,7 +235,7 @@ impl<'bump> Unfolder<'bump> {
                 .shallow_copy();
 
                 let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -276,9 +286,11 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
-                .collect_vec();
+            let to_avoid = chain!(
+                q.free_variables.iter().copied(),
+                self.state.variables_in_scope()
+            )
+            .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
         let new_state = self.state.add_variables(
@@ -315,7 +327,8 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[_]> = state.variables_in_scope().into();
+    let state_variables_input = Rc::clone(&state_variables);
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -336,7 +349,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -364,7 +377,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &state_variables_input);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 65a7f58..9441192 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -416,7 +416,14 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                // the search must not bind a variable that is free here
+                let free_variables: Rc<[_]> = [x, &formula]
+                    .into_iter()
+                    .flat_map(|f| f.free_vars_iter())
+                    .filter(|v| !bounded_variables.contains(v))
+                    .unique()
+                    .collect();
+                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).free_variables(free_variables).build().unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0


From c727d5fff7c430129eaf14a962a4fd4e67b2b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 07/18] fix: the variables of a shared formula are those that
 occur in it, ta quantifiers included

---
 crates/cryptovampire/src/formula/formula/arc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/formula/arc.rs b/crates/cryptovampire/src/formula/formula/arc.rs
index b5a1aa8..0688818 100644
--- a/crates/cryptovampire/src/formula/formula/arc.rs
+++ b/crates/cryptovampire/src/formula/formula/arc.rs
@@ -152,7 +152,7 @@ impl<'bump> Display for ARichFormula<'bump> {
 
 impl<'a, 'bump> IntoVariableIter<'bump> for &'a ARichFormula<'bump> {
     fn vars_iter(self) -> impl Iterator<Item = Variable<'bump>> {
-        self.as_expander().used_vars_iter()
+        self.used_vars_iter()
     }
 }
 
-- 
2.43.0


From d276a962741f637c5a74f6c7644a8ee8f445b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 08/18] fix: a list of argument sorts has as many arguments as
 it holds

OnlyArgsSignature(Proxy)::args_size announced 0..=len-1 arguments, which
never contains the actual number and underflows on an empty list, so that
checking an empty list against a longer signature panicked instead of
reporting the mismatch.
---
 .../src/formula/function/signature/partial_signature.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/signature/partial_signature.rs b/crates/cryptovampire/src/formula/function/signature/partial_signature.rs
index ab29a53..ed81d15 100644
--- a/crates/cryptovampire/src/formula/function/signature/partial_signature.rs
+++ b/crates/cryptovampire/src/formula/function/signature/partial_signature.rs
@@ -61,7 +61,7 @@ impl<'a, 'bump: 'a> Signature<'bump> for OnlyArgsSignature<'a, 'bump> {
     }
 
     fn args_size(&self) -> std::ops::RangeInclusive<utils::infinity::Infinity<usize>> {
-        0.into()..=(self.args.len() - 1).into()
+        self.args.len().into()..=self.args.len().into()
     }
 }
 
@@ -89,6 +89,6 @@ impl<'a, 'bump: 'a> Signature<'bump> for OnlyArgsSignatureProxy<'a, 'bump> {
     }
 
     fn args_size(&self) -> std::ops::RangeInclusive<utils::infinity::Infinity<usize>> {
-        0.into()..=(self.args.len() - 1).into()
+        self.args.len().into()..=self.args.len().into()
     }
 }
-- 
2.43.0


From e315ed0241564c2bf929b8d0519ec93774e49306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 09/18] fix: report excess arguments of a function application
 instead of dropping them

The arguments given were zipped with the ones of the signature before the
arity check, so that f(a, b) silently became f(a) for a unary f (b was not
even parsed).
---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..6e4b9b8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -490,6 +490,8 @@ where
 {
     let signature = function.signature();
     let mut formula_realm = signature.realm();
+    let args = args.into_iter().collect_vec();
+    let args_len = args.len();
 
     // parse further
     let n_args: Result<Vec<_>, _> = {
@@ -508,12 +510,13 @@ where
     let n_args = n_args?;
 
     // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
+    // (on the arguments given, as those in excess are not in `n_args`)
+    if !signature.args_size().contains(&args_len.into()) {
         let range = signature.args_size();
         bail_at!(
             span,
             "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
+            args_len,
             range.start(),
             range.end()
         )
-- 
2.43.0


From cc0f985bc88c6c1b29b3966eba8ceee1c8df9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 10/18] fix: both sides of an equality have the same sort

---
 crates/cryptovampire/src/formula/function/inner/booleans.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/inner/booleans.rs b/crates/cryptovampire/src/formula/function/inner/booleans.rs
index 11c0781..21cc82d 100644
--- a/crates/cryptovampire/src/formula/function/inner/booleans.rs
+++ b/crates/cryptovampire/src/formula/function/inner/booleans.rs
@@ -214,8 +214,8 @@ mod signatures {
 
     #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
     pub struct EqualitySignature<'bump> {
-        left: SortProxy<'bump>,
-        right: SortProxy<'bump>,
+        /// the sort of both sides
+        sides: SortProxy<'bump>,
     }
 
     impl<'bump> Signature<'bump> for EqualitySignature<'bump> {
@@ -234,7 +234,7 @@ mod signatures {
         where
             'bump: 'a,
         {
-            [&self.left, &self.right].map(Clone::clone)
+            [&self.sides, &self.sides].map(Clone::clone)
         }
 
         fn fast(self) -> Option<Self::FxSign> {
-- 
2.43.0


From 10f72b71a3003b9408c666cbf38a75c26d5f40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 11/18] fix: the variable of a let-in is visible in its body
 only

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 6e4b9b8..48739f4 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,10 +130,17 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
+        // the variable is visible in `t2` only
+        let binding = bvars.split_off(bn);
         let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        bvars.extend(binding);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
 
+        // remove the variable
+        bvars.truncate(bn);
+
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
 }
-- 
2.43.0


From 21b583250f1e2fa22a8cef70f8a10417508e4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 12/18] fix: a name that shadows another refers to the
 innermost variable

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 48739f4..56c7a01 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -402,9 +402,10 @@ where
         trace!("parsing {self}");
         match self {
             ast::Application::ConstVar { span, content } => {
-                // check if it is a variable
+                // check if it is a variable (the innermost one with that name)
                 bvars
                     .iter()
+                    .rev()
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From 13bff5e73eefa99d40403f05c8f5f4016b8fe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 13/18] fix: the variables bound by a macro or a step never
 capture those of the arguments

---
 .../src/parser/parser/parsable_trait.rs       | 29 ++++++++++---
 .../parser/parsing_environement/cache/step.rs | 43 ++++++++++++++++---
 2 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 56c7a01..3b64e69 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -58,6 +58,11 @@ impl<'bump> VarProxy<'bump> {
     }
 }
 
+/// An id larger than the ones of all the variables in scope
+fn next_variable_id<'bump, S>(bvars: &[(S, VarProxy<'bump>)]) -> uvar {
+    bvars.iter().map(|(_, v)| v.id + 1).max().unwrap_or(0)
+}
+
 impl<'bump> Display for VarProxy<'bump> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let VarProxy { id, sort } = self;
@@ -294,7 +299,7 @@ where
         }
 
         let var = Variable {
-            id: from_usize(bvars.len()),
+            id: next_variable_id(bvars),
             sort,
         };
 
@@ -609,7 +614,13 @@ where
                     .unknown_symbol(app, &"step", app.name())
                     .debug_continue()?;
 
-                let mut nbvars = step_cache.args_vars_with_input().map_into().collect();
+                // ids that aren't used in `bvars`, such that the variables bound by the step
+                // don't capture those of `args`
+                let first_id = next_variable_id(bvars);
+                let mut nbvars = step_cache
+                    .args_vars_with_input_from(first_id)
+                    .map_into()
+                    .collect();
 
                 let (to_parse, _) = match inner {
                     ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, MESSAGE.as_sort()),
@@ -623,7 +634,7 @@ where
 
                 Ok(term
                     .owned_into_inner()
-                    .apply_substitution2(&step_cache.substitution(args.as_ref())))
+                    .apply_substitution2(&step_cache.substitution_from(first_id, args.as_ref())))
             }
             ast::InnerAppMacro::Other { name, args } => {
                 let mmacro = env
@@ -667,12 +678,15 @@ where
                     )
                 };
 
+                // ids that aren't used in `bvars`, such that the variables bound by the macro
+                // don't capture those of `args`
+                let first_id = next_variable_id(bvars);
                 let term = {
                     let mut bvars = mmacro
                         .args
                         .iter()
                         .zip(mmacro.args_name.iter())
-                        .zip(0..)
+                        .zip(first_id..)
                         .map(|((var_sort, var_name), id)| {
                             (var_name.clone(), Variable::new(id, *var_sort).into())
                         })
@@ -683,9 +697,10 @@ where
                         .debug_continue()
                 }?;
 
-                Ok(term
-                    .owned_into_inner()
-                    .apply_substitution(0..from_usize(mmacro.args.len()), &args))
+                Ok(term.owned_into_inner().apply_substitution(
+                    first_id..(first_id + from_usize(mmacro.args.len())),
+                    &args,
+                ))
             }
         }
     }
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
index 9d79e80..d78754e 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
@@ -35,23 +35,44 @@ where
     S: Clone + FromStaticString,
 {
     pub fn args_vars(&self) -> impl Iterator<Item = NamedVariable<'bump, S>> + '_ {
-        izip!(0.., self.args.iter(), self.args_name.iter()).map(|(id, sort, name)| NamedVariable {
-            name: name.clone(),
-            variable: Variable { id, sort: *sort },
+        self.args_vars_from(0)
+    }
+
+    /// same as [Self::args_vars] with ids starting at `first_id`
+    fn args_vars_from(&self, first_id: uvar) -> impl Iterator<Item = NamedVariable<'bump, S>> + '_ {
+        izip!(first_id.., self.args.iter(), self.args_name.iter()).map(|(id, sort, name)| {
+            NamedVariable {
+                name: name.clone(),
+                variable: Variable { id, sort: *sort },
+            }
         })
     }
 
     /// all the [NamedVariable] that should be visible within a [ast::Step]
     pub fn args_vars_with_input(&self) -> impl Iterator<Item = NamedVariable<'bump, S>> + '_ {
-        self.args_vars().chain([self.input_named_var()])
+        self.args_vars_with_input_from(0)
+    }
+
+    /// same as [Self::args_vars_with_input] with ids starting at `first_id`
+    pub fn args_vars_with_input_from(
+        &self,
+        first_id: uvar,
+    ) -> impl Iterator<Item = NamedVariable<'bump, S>> + '_ {
+        self.args_vars_from(first_id)
+            .chain([self.input_named_var_from(first_id)])
     }
 
     /// the special `in` variable
     pub fn input_named_var(&self) -> NamedVariable<'bump, S> {
+        self.input_named_var_from(0)
+    }
+
+    fn input_named_var_from(&self, first_id: uvar) -> NamedVariable<'bump, S> {
+        let n_args: uvar = self.args.len().try_into().unwrap();
         NamedVariable {
             name: S::from_static("in"),
             variable: Variable {
-                id: self.args.len().try_into().unwrap(),
+                id: first_id + n_args,
                 sort: MESSAGE.as_sort(),
             },
         }
@@ -64,10 +85,18 @@ where
         }
     }
 
-    pub fn substitution(&self, args: &[ARichFormula<'bump>]) -> FrozenSubstF<'_, 'bump> {
+    /// replaces the variables of [Self::args_vars_with_input_from] `first_id` by `args`
+    pub fn substitution_from(
+        &self,
+        first_id: uvar,
+        args: &[ARichFormula<'bump>],
+    ) -> FrozenSubstF<'_, 'bump> {
         assert_eq!(args.len(), self.args.len());
 
-        let vars = self.args_vars_with_input().map(|v| v.id()).collect();
+        let vars = self
+            .args_vars_with_input_from(first_id)
+            .map(|v| v.id())
+            .collect();
         let formulas = args
             .iter()
             .cloned()
-- 
2.43.0


From 9ab53f96f6c4ba53b70d7782d6eee695535a7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 14/18] fix: an assignment gives a cell as many arguments as it
 has

---
 .../src/parser/parser/parse_step_cell_asserts/step.rs    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 65cdbd5..7780f71 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -147,6 +147,15 @@ where
                 .and_then(FunctionCache::as_memory_cell)
                 .unknown_symbol(cell_ast, &"cell", cell_name)?;
 
+            if cell_ast.args().len() != args.len() {
+                crate::bail_at!(
+                    cell_ast,
+                    "wrong number of arguments: got {}, expected {}",
+                    cell_ast.args().len(),
+                    args.len()
+                )
+            }
+
             // get the arguments and apply substitution
             let cell_args: Result<Arc<[_]>, _> = cell_ast
                 .args()
-- 
2.43.0


From 3cdd92944dc3ac7016113308bbefa3d0c2556a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 15/18] fix: an equivalence between conditions is parsed as
 both implications instead of overflowing the stack

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 3b64e69..3b10ecb 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -798,8 +798,11 @@ where
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
                         &self.span,
-                        self.operation,
-                        self.terms.iter().tuple_windows(),
+                        ast::Operation::Implies,
+                        self.terms
+                            .iter()
+                            .tuple_windows()
+                            .flat_map(|(a, b)| [(a, b), (b, a)]),
                     ),
                     span: self.span.clone(),
                 }
-- 
2.43.0


From 89f05cfd6120f92cdce1cbe730e372b80e21d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 16/18] fix: an occurrence of a variable has the sort of its
 binder

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 3b10ecb..9ac5e6e 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -451,7 +451,11 @@ where
                                     sort.as_option().ok_or(span.err_with(|| "can't infer sort"))
                                 })
                                 .debug_continue()
-                                .map(|sort| Variable { id: *id, sort }.into()),
+                                .map(|expected| {
+                                    // an occurrence has the sort of its binder
+                                    let sort = sort.as_option().unwrap_or(expected);
+                                    Variable { id: *id, sort }.into()
+                                }),
                         }
                     })
                     // otherwise look for a function
-- 
2.43.0


From 823d1832522a8263111f5e28eb38476733bb030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 17/18] fix: the content of a let-in has exactly the sort it
 declares

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 9ac5e6e..1978036 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -139,7 +139,9 @@ where
         let var = var.parse(env, bvars, state, None)?;
         // the variable is visible in `t2` only
         let binding = bvars.split_off(bn);
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        // its content lives in the realm of its sort, like the argument of a macro
+        let realm = var.sort().realm().unwrap_or(state.get_realm());
+        let t1 = t1.parse(env, bvars, &realm, Some(var.sort().into()))?;
         bvars.extend(binding);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
 
-- 
2.43.0


From d7d192ebe7b72933d1d14bf8b2cdcbf32813d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:23 +0000
Subject: [PATCH 18/18] fix: unification refused unifiable terms and overflowed
 the stack when a variable occurs twice

---
 .../src/formula/manipulation/unifier.rs       | 107 ++++++++++--------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/crates/cryptovampire/src/formula/manipulation/unifier.rs b/crates/cryptovampire/src/formula/manipulation/unifier.rs
index 1104dcb..824d636 100644
--- a/crates/cryptovampire/src/formula/manipulation/unifier.rs
+++ b/crates/cryptovampire/src/formula/manipulation/unifier.rs
@@ -102,16 +102,11 @@ impl<'bump> Unifier<'bump> {
                 }
             }
             (_, RichFormula::Var(v)) => {
-                if let Some(right) = self.right.maybe_get(v.id) {
-                    self.does_unify(left, right.as_ref())
-                } else if let RichFormula::Var(v2) = right {
-                    if let Some(left) = self.left.maybe_get(v2.id) {
-                        self.does_unify(left.as_ref(), right)
-                    } else {
-                        v == v2
-                    }
-                } else {
-                    false
+                // `left` is not a variable
+                let bound = self.right.maybe_get(v.id);
+                match bound.or_else(|| self.left.maybe_get(v.id)) {
+                    Some(right) => self.does_unify(left, right.as_ref()),
+                    None => false,
                 }
             }
             _ => false,
@@ -119,59 +114,73 @@ impl<'bump> Unifier<'bump> {
     }
 
     pub fn mgu(left: &ARichFormula<'bump>, right: &ARichFormula<'bump>) -> Option<Self> {
+        /// follow the bindings of a variable, until an unbound variable or something else
+        fn walk<'bump>(
+            f: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> ARichFormula<'bump> {
+            match f.as_ref() {
+                RichFormula::Var(v) => {
+                    let bound = left_p.maybe_get(v.id);
+                    match bound.or_else(|| right_p.maybe_get(v.id)) {
+                        Some(nf) => walk(nf, left_p, right_p),
+                        None => f.shallow_copy(),
+                    }
+                }
+                _ => f.shallow_copy(),
+            }
+        }
+
+        /// does the unbound variable `id` occur in `f`, through the bindings
+        fn occurs<'bump>(
+            id: uvar,
+            f: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> bool {
+            match walk(f, left_p, right_p).as_ref() {
+                RichFormula::Var(v) => v.id == id,
+                RichFormula::Fun(_, args) => {
+                    args.iter().any(|arg| occurs(id, arg, left_p, right_p))
+                }
+                RichFormula::Quantifier(..) => false,
+            }
+        }
+
         fn aux<'bump>(
             left: &ARichFormula<'bump>,
             right: &ARichFormula<'bump>,
             left_p: &mut MulitpleVarSubstF<'bump>,
             right_p: &mut MulitpleVarSubstF<'bump>,
         ) -> bool {
+            let left = walk(left, left_p, right_p);
+            let right = walk(right, left_p, right_p);
             match (left.as_ref(), right.as_ref()) {
-                (RichFormula::Var(vl), RichFormula::Var(vr)) if vl == vr => true,
-                (RichFormula::Var(v), _) => match left_p.maybe_get(v.id).cloned() {
-                    Some(nl) if nl.is_var() => match (nl.as_ref(), right.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = right_p.maybe_get_as_rf(v3.id) {
-                                    nl.as_ref() == r
-                                } else {
-                                    right_p.add(v3.id, nl.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
-                    None => {
+                (RichFormula::Var(vl), RichFormula::Var(vr)) if vl.id == vr.id => true,
+                (RichFormula::Var(v), _) => {
+                    let ok = !occurs(v.id, &right, left_p, right_p);
+                    if ok {
                         left_p.add(v.id, right.shallow_copy());
-                        true
                     }
-                },
-                (_, RichFormula::Var(v)) => match right_p.maybe_get(v.id).cloned() {
-                    Some(nr) if nr.is_var() => match (nr.as_ref(), left.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = left_p.maybe_get(v3.id) {
-                                    &nr == r
-                                } else {
-                                    left_p.add(v3.id, nr.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
-                    None => {
+                    ok
+                }
+                (_, RichFormula::Var(v)) => {
+                    let ok = !occurs(v.id, &left, left_p, right_p);
+                    if ok {
                         right_p.add(v.id, left.shallow_copy());
-                        true
                     }
-                },
+                    ok
+                }
                 (RichFormula::Fun(fl, args_l), RichFormula::Fun(fr, args_r))
                     if fl == fr && args_l.len() == args_r.len() =>
                 {
-                    itertools::zip_eq(args_l.iter(), args_r.iter())
-                        .all(|(left, right)| aux(left, right, left_p, right_p))
+                    for (left, right) in args_l.iter().zip(args_r.iter()) {
+                        if !aux(left, right, left_p, right_p) {
+                            return false;
+                        }
+                    }
+                    true
                 }
                 _ => false,
             }
-- 
2.43.0

