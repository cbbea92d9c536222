From af68a3ab6d4c3dc289e77f6ebc255a50970285d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 01/54] fix: resolve a shadowed variable to its innermost
 binder

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..443e9be 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -398,6 +398,7 @@ where
                 // check if it is a variable
                 bvars
                     .iter()
+                    .rev() // the innermost binder shadows the others
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From 68c657eb32db0a1acd864705b8fe1762237d225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 02/54] fix: do not leak a let-bound variable out of the body
 of its let

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 443e9be..61ce906 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,9 +130,17 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
+
+        // the variable isn't in scope in `t1`...
+        let binding = bvars.split_off(bn);
         let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+
+        // ...nor after `t2`
+        bvars.extend(binding);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
+        bvars.truncate(bn);
 
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
-- 
2.43.0


From 884b7359158cd2740a6cd0e0e825730bc8768ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:43 +0000
Subject: [PATCH 03/54] fix: reject applications with too many arguments
 instead of dropping the extra ones

---
 .../src/parser/parser/parsable_trait.rs       | 25 ++++++++++---------
 .../parser/parse_step_cell_asserts/step.rs    | 11 ++++++++
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 61ce906..d33a66c 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -500,6 +500,19 @@ where
     let signature = function.signature();
     let mut formula_realm = signature.realm();
 
+    // check arity (the `zip` below would silently drop extra arguments)
+    let args = args.into_iter().collect_vec();
+    if !signature.args_size().contains(&args.len().into()) {
+        let range = signature.args_size();
+        bail_at!(
+            span,
+            "wrong number of arguments: got {}, expected [{}, {}]",
+            args.len(),
+            range.start(),
+            range.end()
+        )
+    }
+
     // parse further
     let n_args: Result<Vec<_>, _> = {
         // propagate the right state if it changed
@@ -516,18 +529,6 @@ where
     };
     let n_args = n_args?;
 
-    // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
-        let range = signature.args_size();
-        bail_at!(
-            span,
-            "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
-            range.start(),
-            range.end()
-        )
-    }
-
     let ifun = function.get_function();
     // if it's a name, cast it
     let formula = if let Some(name) = ifun.as_name() {
diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 65cdbd5..4a854a7 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -4,6 +4,7 @@ use itertools::Itertools;
 use log::trace;
 
 use crate::{
+    bail_at,
     container::{allocator::ContainerTools, ScopedContainer},
     environement::traits::Realm,
     formula::{
@@ -147,6 +148,16 @@ where
                 .and_then(FunctionCache::as_memory_cell)
                 .unknown_symbol(cell_ast, &"cell", cell_name)?;
 
+            // check arity (the `zip` below would silently drop extra arguments)
+            if cell_ast.args().len() != args.len() {
+                bail_at!(
+                    cell_ast,
+                    "wrong number of arguments: got {}, expected {}",
+                    cell_ast.args().len(),
+                    args.len()
+                )
+            }
+
             // get the arguments and apply substitution
             let cell_args: Result<Arc<[_]>, _> = cell_ast
                 .args()
-- 
2.43.0


From d9f1a0dacab14d2e1ea75e72cea541fc30ecae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:03 +0000
Subject: [PATCH 04/54] fix: build ta$iff for a symbolic <=> instead of
 recursing forever

---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++++
 .../parser/parser/parsable_trait/cached_builtins.rs    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index d33a66c..42a6b85 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -778,6 +778,16 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                    env,
+                    &self.span,
+                    state,
+                    bvars,
+                    expected_sort,
+                    &IFF_TA_CACHE(),
+                    &self.terms,
+                )
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
index 1e5188c..7c12fe8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
@@ -33,6 +33,12 @@ pub(crate) fn EQUALITY_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'
 //     MOw::Owned(IFF.clone().into())
 // }
 
+// #[dynamic]
+#[allow(non_snake_case)]
+pub(crate) fn IFF_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
+    MOw::Owned((*IFF_TA).into())
+}
+
 // #[dynamic]
 #[allow(non_snake_case)]
 pub(crate) fn IMPLIES_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
-- 
2.43.0


From 3869585f8b27545c14075e94740ebd8a7b8753c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 05/54] fix: make substitution capture-avoiding (macros,
 msg!/cond! and let under binders)

---
 .../src/formula/formula/formula.rs            | 11 ++-
 .../manipulation/substitution/substitution.rs | 82 ++++++++++++++++---
 2 files changed, 77 insertions(+), 16 deletions(-)

diff --git a/crates/cryptovampire/src/formula/formula/formula.rs b/crates/cryptovampire/src/formula/formula/formula.rs
index 1473b39..872c9af 100644
--- a/crates/cryptovampire/src/formula/formula/formula.rs
+++ b/crates/cryptovampire/src/formula/formula/formula.rs
@@ -15,7 +15,7 @@ use crate::formula::{
         signature::Signature,
         Function,
     },
-    manipulation::{Substitution, Translate},
+    manipulation::{FrozenSubstF, Substitution, Translate},
     quantifier::Quantifier,
     sort::{
         builtins::BOOL,
@@ -116,11 +116,10 @@ impl<'bump> RichFormula<'bump> {
         if cfg!(debug_assertions) && vars.len() != fs.len() {
             panic!("assertion failed:\n{vars:?}\n[{}]", fs.iter().join(", "))
         }
-        self.apply_some(|v| {
-            vars.iter()
-                .position(|v2| v2 == &v.id)
-                .map(|i| fs[i].clone())
-        })
+        self.apply_substitution2(&FrozenSubstF::new_from(
+            vars,
+            fs.into_iter().cloned().collect_vec(),
+        ))
     }
 
     pub fn apply_substitution2(&self, per: &impl Substitution<'bump>) -> ARichFormula<'bump> {
diff --git a/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs b/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
index 02cdf71..ff8ed64 100644
--- a/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
+++ b/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
@@ -1,5 +1,10 @@
+use std::collections::BTreeSet;
+
+use logic_formula::Formula;
+
 use crate::formula::{
     formula::{ARichFormula, RichFormula},
+    quantifier::Quantifier,
     variable::{uvar, Variable},
 };
 
@@ -9,17 +14,12 @@ pub trait Substitution<'bump> {
     /// By convention, we expect the substitution to be defined on all [Variable], possibly becoming the identity function.
     fn get(&self, var: &Variable<'bump>) -> ARichFormula<'bump>;
 
-    /// Recursively apply [Substitution::get] to substitute all the variables in `f`
+    /// Recursively apply [Substitution::get] to substitute all the free variables in `f`
+    ///
+    /// Bound variables are left alone (and renamed when they would otherwise capture a variable
+    /// introduced by the substitution).
     fn apply(&self, f: impl AsRef<RichFormula<'bump>>) -> ARichFormula<'bump> {
-        match f.as_ref() {
-            RichFormula::Var(v) => self.get(v),
-            RichFormula::Fun(fun, args) => {
-                RichFormula::Fun(*fun, args.iter().map(|arg| self.apply(arg)).collect()).into_arc()
-            }
-            RichFormula::Quantifier(q, arg) => {
-                RichFormula::Quantifier(q.clone(), self.apply(arg)).into_arc()
-            }
-        }
+        apply_capture_avoiding(&|var| self.get(var), f.as_ref())
     }
 
     /// To chain two substitutions.
@@ -48,6 +48,68 @@ pub trait Substitution<'bump> {
     }
 }
 
+fn apply_capture_avoiding<'bump>(
+    get: &dyn Fn(&Variable<'bump>) -> ARichFormula<'bump>,
+    f: &RichFormula<'bump>,
+) -> ARichFormula<'bump> {
+    match f {
+        RichFormula::Var(v) => get(v),
+        RichFormula::Fun(fun, args) => RichFormula::Fun(
+            *fun,
+            args.iter()
+                .map(|arg| apply_capture_avoiding(get, arg.as_ref()))
+                .collect(),
+        )
+        .into_arc(),
+        RichFormula::Quantifier(q, arg) => {
+            let bound = q.get_variables();
+            let is_bound = |id: uvar| bound.iter().any(|b| b.id == id);
+
+            // the variables that end up free under the quantifier
+            let mut introduced = BTreeSet::new();
+            for v in arg.as_ref().used_vars_iter() {
+                if !is_bound(v.id) {
+                    introduced.extend(get(&v).as_ref().used_vars_iter().map(|v| v.id));
+                }
+            }
+
+            let mut next = bound
+                .iter()
+                .map(|v| v.id)
+                .chain(arg.as_ref().used_vars_iter().map(|v| v.id))
+                .chain(introduced.iter().copied())
+                .max()
+                .map(|id| id + 1)
+                .unwrap_or_default();
+            let renamed: Vec<_> = bound
+                .iter()
+                .map(|v| {
+                    if introduced.contains(&v.id) {
+                        let id = next;
+                        next += 1;
+                        Variable { id, ..*v }
+                    } else {
+                        *v
+                    }
+                })
+                .collect();
+
+            let arg = apply_capture_avoiding(
+                &|v| match bound.iter().position(|b| b.id == v.id) {
+                    Some(i) => renamed[i].into(),
+                    None => get(v),
+                },
+                arg.as_ref(),
+            );
+            let q = match q {
+                Quantifier::Exists { .. } => Quantifier::exists(renamed),
+                Quantifier::Forall { .. } => Quantifier::forall(renamed),
+            };
+            RichFormula::Quantifier(q, arg).into_arc()
+        }
+    }
+}
+
 /// To chain two substitutions.
 ///
 /// The resulting substitution apply the current `self` *then* `other`.
-- 
2.43.0


From 218d6518f1bcbfb571e0a0d1fe5c1dacd598ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 06/54] fix: gt(a,b) is lt(b,a), not its negation

---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From 730373e2785f5859066125ce1b0d397f4f2e67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:50 +0000
Subject: [PATCH 07/54] fix: declare sorts without constructors as plain sorts

---
 .../cryptovampire/src/problem/problem/mod.rs  | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..d2f8512 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -26,7 +26,10 @@ use crate::{
         function::{
             inner::evaluate::Evaluator, name_caster_collection::NameCasterCollection, Function,
         },
-        sort::{builtins::CONDITION, Sort},
+        sort::{
+            builtins::{CONDITION, STEP},
+            Sort,
+        },
         variable::{uvar, IntoVariableIter},
     },
 };
@@ -207,15 +210,25 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
                 }
             }
 
-            declarations.push(Declaration::DataTypes(
-                datatypes
-                    .into_iter()
-                    .map(|(sort, constructor_destructors)| DataType {
-                        sort,
-                        constructor_destructors,
-                    })
-                    .collect(),
-            ));
+            // a datatype needs at least one constructor
+            declarations.extend(
+                self.sorts
+                    .iter()
+                    .filter(|s| s.is_datatype(env) && !datatypes.contains_key(*s))
+                    .filter(|&&s| s != STEP.as_sort()) // declared with the ordering
+                    .map(|s| Declaration::Sort(*s)),
+            );
+            if !datatypes.is_empty() {
+                declarations.push(Declaration::DataTypes(
+                    datatypes
+                        .into_iter()
+                        .map(|(sort, constructor_destructors)| DataType {
+                            sort,
+                            constructor_destructors,
+                        })
+                        .collect(),
+                ));
+            }
         }
         trace!("[G]\t\t[DONE]");
 
-- 
2.43.0


From 942f2111d6e080b272d4899029b03b81a24c74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 08/54] fix: only use evaluated functions in assertions where
 they exist, and bind the right variables

---
 .../assertion_preprocessor.rs                 | 40 +++++++++++++------
 .../cryptovampire/src/problem/problem/mod.rs  | 19 +++++----
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..7694878 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -1,6 +1,7 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, sync::Arc};
 
 use itertools::Itertools;
+use logic_formula::Formula;
 
 use crate::formula::{
     self,
@@ -61,10 +62,6 @@ fn preprocess_after_eval<'bump>(
     env: &Evaluator<'bump>,
 ) -> RichFormula<'bump> {
     match assertion {
-        RichFormula::Var(v) if v.sort().is_evaluatable() => Some(RichFormula::Var(Variable {
-            sort: v.sort().maybe_evaluated_sort().unwrap(),
-            ..*v
-        })),
         RichFormula::Fun(fun, args) => match fun.as_ref().maybe_get_evaluated() {
             Some(f) => Some(RichFormula::Fun(
                 f,
@@ -85,22 +82,39 @@ fn preprocess_after_eval<'bump>(
                     InnerQuantifier::FindSuchThat { .. } => None,
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
                         Some({
+                            // instantiate the free variables with `args` and use fresh bound
+                            // variables to avoid capturing those of `args`
+                            let fresh = args
+                                .iter()
+                                .flat_map(|arg| arg.as_ref().used_vars_iter())
+                                .chain(bound_variables.iter().chain(free_variables.iter()).cloned())
+                                .map(|v| v.id + 1)
+                                .max()
+                                .unwrap_or_default();
+                            let variables: Arc<[_]> = bound_variables
+                                .iter()
+                                .zip(fresh..)
+                                .map(|(v, id)| Variable { id, ..*v })
+                                .collect();
                             let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
-                                args,
+                                free_variables
+                                    .iter()
+                                    .chain(bound_variables.iter())
+                                    .map(Variable::id)
+                                    .collect_vec(),
+                                args.iter()
+                                    .cloned()
+                                    .chain(variables.iter().map(ARichFormula::from))
+                                    .collect_vec(),
                             ));
                             let content = preprocess_after_eval(content.as_ref(), env);
 
                             let q = match inner {
                                 InnerQuantifier::Forall { .. } => {
-                                    formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
-                                    }
+                                    formula::quantifier::Quantifier::Forall { variables }
                                 }
                                 InnerQuantifier::Exists { .. } => {
-                                    formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
-                                    }
+                                    formula::quantifier::Quantifier::Exists { variables }
                                 }
                                 _ => unreachable!(),
                             };
diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index d2f8512..7fba1bc 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -250,21 +250,24 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
 
         // assertions.sort();
 
+        // the evaluated functions only exist in the symbolic realm
+        let propagate = |f: &ARichFormula<'bump>| {
+            if env.is_symbolic_realm() && !env.no_bitstring_functions() {
+                propagate_evaluate(f.as_ref(), &self.evaluator)
+            } else {
+                f.shallow_copy()
+            }
+        };
+
         trace!("[G]\t- user assertions...");
         assertions.push(Axiom::Comment("user asserts".into()));
-        assertions.extend(
-            self.assertions
-                .iter()
-                .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
-                .map(Axiom::base),
-        );
+        assertions.extend(self.assertions.iter().map(propagate).map(Axiom::base));
         trace!("[G]\t\t[DONE]");
 
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: propagate(&self.query),
         });
 
         trace!("[G]\t\t[DONE]");
-- 
2.43.0


From f9eac3271342543d0dfa53a1dceb1133fea5e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:54 +0000
Subject: [PATCH 09/54] fix: the premise of legacy-evaluate relates the two
 argument lists

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..f2c721e 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From 9a2b06d3e30f60b6e6f2160965f0a6330e503725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 10/54] fix: direct unfolding of exec ranges over the
 conditions of all the earlier steps

---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From 77d3926da1ddd559cd1b8b2dcf892a2d0f819ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 11/54] fix: steps that do not happen do not write in memory
 cells

---
 crates/cryptovampire/src/problem/crypto_assumptions/cell.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..c194cd8 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -8,7 +8,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula,
-        function::builtin::PRED,
+        function::builtin::{HAPPENS, PRED},
         sort::builtins::STEP,
         variable::{from_usize, Variable},
     },
@@ -73,7 +73,9 @@ impl Cell {
                                     vars.iter()
                                         .zip_eq(args.iter())
                                         .chain([(&step_var, &step_call)])
-                                        .map(|(l, r)| formula::meq(l, r)),
+                                        .map(|(l, r)| formula::meq(l, r))
+                                        // all the steps that do not happen are equal
+                                        .chain([HAPPENS.f([step_var])]),
                                 );
 
                                 (
-- 
2.43.0


From c1bc625b5de1186ec1941946283ef181192cc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 12/54] fix: memory cells store the value of what is assigned,
 not its symbolic term

---
 crates/cryptovampire/src/problem/crypto_assumptions/cell.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index c194cd8..cde2fcd 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -81,7 +81,11 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        ands.shallow_copy()
+                                            >> formula::meq(
+                                                pbl.evaluator().eval(&cell_call),
+                                                pbl.evaluator().eval(content),
+                                            ),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From 2d7bde2dc3c0bb5ce0f97de7454745852035fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 13/54] fix: a variable may contain anything in subterm axioms
 of special functions

---
 crates/cryptovampire/src/subterm/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..ad43770 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -799,6 +799,16 @@ where
     {
         trace!("{} ⊑ {}", self.x, &f);
 
+        // nothing is known about the content of a variable
+        if f.as_ref().as_var().is_some_and(|v| v.sort().is_evaluatable()) {
+            let mut guard = vec![self.subterm.f_a(&self.realm, self.x.clone(), f)];
+            if self.keep_guard {
+                guard.extend(state.condition().into_iter().cloned())
+            }
+            helper.push_result((state.owned_bound_variable(), formula::ands(guard)));
+            return;
+        }
+
         // if this term "hides" some other terms to look for (e.g., macros, quantifiers) we queue them
         helper.extend_child(
             UnfolderBuilder::default()
-- 
2.43.0


From 332571e740d4db8b877598c34f6ac2c5faa5a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:31 +0000
Subject: [PATCH 14/54] fix: the general (e)uf-cma axioms take the signature
 before the message

---
 crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs | 2 +-
 crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0cd36f9..0c2aed5 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -135,7 +135,7 @@ impl<'bump> EufCma<'bump> {
                 formula: mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.apply([m.into(), sigma.into(), self.pk.f([ k_f.clone()])])) >>
+                    ev.eval(self.verify.apply([sigma.into(), m.into(), self.pk.f([ k_f.clone()])])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 34c73cd..2b5e8a0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -170,7 +170,7 @@ impl<'bump> UfCma<'bump> {
                 formula : mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.f([m.into(), sigma.into(), k_f.clone()])) >>
+                    ev.eval(self.verify.f([sigma.into(), m.into(), k_f.clone()])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
-- 
2.43.0


From 7438dff40d667c82376ee0f5c32d18bec1c1ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:58 +0000
Subject: [PATCH 15/54] fix: cast the key of dec in the general int-ctxt axiom

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..61f2c53 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-- 
2.43.0


From 692cb32c5162561b23e4d48a0ed55ddb60191b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:15 +0000
Subject: [PATCH 16/54] fix: unfold msg/cond of a concrete step into that step
 only, with its renamed variables

---
 .../src/formula/utils/formula_expander.rs     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..4ebe42f 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -6,7 +6,10 @@ use crate::{
     formula::{
         formula::{meq, ARichFormula, RichFormula},
         function::{
-            inner::term_algebra::{quantifier::Quantifier, step_macro, TermAlgebra},
+            inner::{
+                step::StepFunction,
+                term_algebra::{quantifier::Quantifier, step_macro, TermAlgebra},
+            },
             InnerFunction,
         },
         manipulation::{FrozenMultipleVarSubst, FrozenSubst, OneVarSubst, Substitution},
@@ -215,8 +218,17 @@ impl<'bump> Unfolder<'bump> {
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
         let state_variables = self.state.bound_variables();
+        // the only step `arg` can be equal to, when this is syntactically clear
+        let concrete = match arg.as_ref() {
+            RichFormula::Fun(f, _) => match f.as_inner() {
+                InnerFunction::Step(StepFunction::Step(s)) => Some(s.step()),
+                _ => None,
+            },
+            _ => None,
+        };
         steps
             .into_iter()
+            .filter(|s| concrete.as_ref().map(|c| c == s).unwrap_or(true))
             .map(|s| {
                 let content = match kind {
                     step_macro::MessageOrCondition::Condition => s.condition_arc(),
@@ -235,7 +247,10 @@ impl<'bump> Unfolder<'bump> {
                     nvars.iter().copied(),
                     meq(arg, s.function().f(nvars.iter().map(ARichFormula::from))),
                 );
-                Unfolder { state, content }
+                Unfolder {
+                    state,
+                    content: content.apply_substitution2(&collision_var),
+                }
             })
             .collect_vec()
     }
-- 
2.43.0


From 516e1f4d83e4b90cd4b202a3b99196d252c76016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 17/54] fix: the value of a let-bound message is a symbolic
 term

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 42a6b85..391dbd8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -135,7 +135,12 @@ where
 
         // the variable isn't in scope in `t1`...
         let binding = bvars.split_off(bn);
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        // occurrences of a symbolic variable are evaluated where they are used
+        let t1_realm = match var.sort().maybe_evaluated_sort() {
+            Some(_) => Realm::Symbolic,
+            None => state.get_realm(),
+        };
+        let t1 = t1.parse(env, bvars, &t1_realm, Some(var.sort().into()))?;
 
         // ...nor after `t2`
         bvars.extend(binding);
-- 
2.43.0


From ac3e8a0bc55f59f3079c168388915fd66374b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 18/54] fix: expand the content of ta quantifiers, not their
 arguments, and never recurse on a free variable

---
 .../src/formula/formula/expanding_formula.rs  | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/crates/cryptovampire/src/formula/formula/expanding_formula.rs b/crates/cryptovampire/src/formula/formula/expanding_formula.rs
index 9c51d7d..25ab88c 100644
--- a/crates/cryptovampire/src/formula/formula/expanding_formula.rs
+++ b/crates/cryptovampire/src/formula/formula/expanding_formula.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use itertools::{chain, izip, Either};
+use itertools::{izip, Either};
 use logic_formula::{Bounder, Destructed, Formula, HeadSk};
 
 use crate::formula::{
@@ -17,7 +17,9 @@ pub struct Expander<'a, 'bump> {
     /// The formula to iterate through
     formula: &'a ARichFormula<'bump>,
     /// a substitution, see [Self::destruct]'s source to see how it is used
-    substitution: Arc<[(Variable<'bump>, &'a ARichFormula<'bump>)]>,
+    ///
+    /// the arguments have to be read under the substitution of where they come from
+    substitution: Arc<[(Variable<'bump>, Expander<'a, 'bump>)]>,
 }
 
 impl<'a, 'bump> Expander<'a, 'bump> {
@@ -48,17 +50,13 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
             // if it's a variable
             HeadSk::Var(v) => {
                 // if it's in the substitution
-                if let Some(formula) = substitution
+                if let Some(expander) = substitution
                     .iter()
                     .rev()
-                    .find_map(|(sv, f)| (sv == &v).then_some(*f))
+                    .find_map(|(sv, f)| (sv == &v).then(|| f.clone()))
                 {
                     // apply the substitution and try again
-                    Self {
-                        substitution,
-                        formula,
-                    }
-                    .destruct()
+                    expander.destruct()
                 } else {
                     // otherwise to the thing regularily
                     Destructed {
@@ -76,22 +74,17 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
                 },
                 // if it's a ta quantifier
                 Some(q) => {
-                    // update the substitution
-                    // note that we need to copy the whole content of the old `substitution`
-                    // so using something like an Arc<[ ]> doesn't make us lose performance
-                    // over a Vec-like structure. (plus the sized should be known before hand)
-                    let substitution: Arc<[_]> = chain!(
-                        substitution.iter().map(|(a, b)| (*a, *b)),
-                        izip!(q.free_variables.iter().cloned(), q.get_content_iter())
+                    // the content only depends on the free variables of the quantifier (and on the
+                    // bound ones), which stand for the arguments
+                    let substitution: Arc<[_]> = izip!(
+                        q.free_variables.iter().cloned(),
+                        commun_f(substitution, args)
                     )
                     .collect();
                     // return the new object with the new substitution
                     Destructed {
                         head: HeadSk::Quant(q.into()),
-                        args: Either::Right(args.map(move |formula| Self {
-                            formula,
-                            substitution: substitution.clone(),
-                        })),
+                        args: Either::Right(commun_f(substitution, q.get_content_iter())),
                     }
                 }
             },
@@ -100,7 +93,7 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
 }
 
 fn commun_f<'a, 'bump>(
-    substitutions: Arc<[(Variable<'bump>, &'a ARichFormula<'bump>)]>,
+    substitutions: Arc<[(Variable<'bump>, Expander<'a, 'bump>)]>,
     args: impl Iterator<Item = &'a ARichFormula<'bump>>,
 ) -> impl Iterator<Item = Expander<'a, 'bump>> {
     args.map(move |formula| Expander {
-- 
2.43.0


From e869e59696a3080df355f39b63ef0cfe50442ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 19/54] fix: bound variables of a ta quantifier must not
 capture the arguments it is expanded with

---
 .../src/formula/utils/formula_expander.rs             | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 4ebe42f..b9efb89 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -26,6 +26,7 @@ use utils::{destvec, implvec};
 
 use bitflags::bitflags;
 use itertools::{chain, Itertools};
+use logic_formula::Formula;
 use log::trace;
 bitflags! {
     /// Some flags to control the search.
@@ -291,9 +292,13 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
-                .collect_vec();
+            // the arguments must not be captured by the bound variables either
+            let to_avoid = chain!(
+                q.free_variables.iter().cloned(),
+                self.state.bound_variables().iter().cloned(),
+                args.iter().flat_map(|arg| arg.free_vars_iter())
+            )
+            .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
         let new_state = self.state.add_variables(
-- 
2.43.0


From 8d3401c17e8e193018dd9bf985e5065e7d590315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:25 +0000
Subject: [PATCH 20/54] fix: look for encryptions inside terms when checking
 the side conditions of int-ctxt

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 61f2c53..a55b15b 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -235,7 +235,7 @@ impl<'bump> IntCtxt<'bump> {
         // with variables unchanged
         let candidates_enc = pbl
             .list_top_level_terms()
-            // .flat_map(move |f| f.iter()) // sad...
+            .flat_map(|f| f.iter_with(AllTermsIterator, ())) // the whole terms, not only their heads
             .filter_map(|formula| match formula.as_ref() {
                 RichFormula::Fun(fun, args) => {
                     if fun == &self.enc {
-- 
2.43.0


From 6b71af8a4e14c1d23acff9e1dfd5bb139aff9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 21/54] fix: int-ctxt side condition fails when keys or
 messages can't be equal, FALSE is false and no variable is left free

---
 .../cryptovampire/src/formula/function/builtin.rs  |  2 +-
 .../src/problem/crypto_assumptions/int_ctxt.rs     | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/builtin.rs b/crates/cryptovampire/src/formula/function/builtin.rs
index 4fa2284..62198ca 100644
--- a/crates/cryptovampire/src/formula/function/builtin.rs
+++ b/crates/cryptovampire/src/formula/function/builtin.rs
@@ -70,7 +70,7 @@ pub static TRUE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
 pub static TRUE_ARC: ARichFormula<'static> = TRUE.clone_as_arc();
 
 #[dynamic]
-pub static FALSE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
+pub static FALSE: RichFormula<'static> = RichFormula::Fun(*FALSE_F, Arc::new([]));
 
 #[dynamic]
 pub static AND: Function<'static> = new_static_function(InnerFunction::Bool(Booleans::Connective(
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index a55b15b..ac1521c 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -19,7 +19,10 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula::{ands, forall, meq, ARichFormula, RichFormula},
-        function::{builtin::TRUE, Function},
+        function::{
+            builtin::{FALSE, TRUE},
+            Function,
+        },
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
         manipulation::Unifier,
         sort::{
@@ -329,6 +332,7 @@ impl<'bump> IntCtxt<'bump> {
                         let candidates_enc = candidates_enc
                             .iter()
                             .tuple_combinations::<(_, _)>()
+                            .flat_map(|(a, b)| [(a, b), (b, a)])
                             .filter_map(
                                 |(
                                     IntCtxtEncCandidates {
@@ -358,13 +362,15 @@ impl<'bump> IntCtxt<'bump> {
                                     let unfier_r = unify(&r1, &r2)?;
 
                                     let k2 = k2.translate_vars(max_var).into_arc();
-                                    let unifier_k12 = unify(&k1, &k2)?;
+                                    // if the keys or the messages can't be the same, then the randomness is misused
+                                    let misuse = || vec![FALSE.clone().into_arc()];
+                                    let unifier_k12 = unify(&k1, &k2).unwrap_or_else(misuse);
 
                                     let m2 = m2.translate_vars(max_var).into_arc();
-                                    let unifier_m = unify(&m1, &m2)?;
+                                    let unifier_m = unify(&m1, &m2).unwrap_or_else(misuse);
 
                                     let free_vars = BTreeSet::from_iter(
-                                        [&r1, &m1, &k1, &r2, &m2, &r2]
+                                        [&r1, &m1, &k1, &r2, &m2, &k2]
                                             .into_iter()
                                             .flat_map(|f| f.free_vars_iter()),
                                     );
-- 
2.43.0


From bf8c9d9dc36a3f51c85d17306ad2306cfffc4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:29 +0000
Subject: [PATCH 22/54] fix: look for misused encryptions inside find and
 quantifiers too

---
 .../src/problem/crypto_assumptions/int_ctxt.rs            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index ac1521c..131ab70 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -238,7 +238,13 @@ impl<'bump> IntCtxt<'bump> {
         // with variables unchanged
         let candidates_enc = pbl
             .list_top_level_terms()
-            .flat_map(|f| f.iter_with(AllTermsIterator, ())) // the whole terms, not only their heads
+            // the whole terms, including what is in the ta quantifiers, not only their heads
+            .flat_map(|f| {
+                let through_quantifiers = f.as_expander().iter_with(AllTermsIterator, ());
+                f.iter_with(AllTermsIterator, ())
+                    .cloned()
+                    .chain(through_quantifiers.map(|e| e.formula().clone()))
+            })
             .filter_map(|formula| match formula.as_ref() {
                 RichFormula::Fun(fun, args) => {
                     if fun == &self.enc {
-- 
2.43.0


From 668792e1594abee4960442cebb1eb8e9d7a628c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:42 +0000
Subject: [PATCH 23/54] fix: what a subterm search binds must not capture the
 variables of what it looks for

---
 .../src/formula/utils/formula_expander.rs     | 26 ++++++++++++++-----
 crates/cryptovampire/src/subterm/mod.rs       |  6 ++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index b9efb89..ec847d8 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -62,6 +62,9 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The variables the search must not bind (e.g., those of the term we look for)
+    #[builder(setter(into), default = "Rc::new([])")]
+    reserved_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -108,6 +111,16 @@ impl<'bump> UnfoldingState<'bump> {
         &self.bound_variables
     }
 
+    /// All the variables that mustn't be bound (again)
+    fn used_variables(&self) -> Vec<Variable<'bump>> {
+        chain!(
+            self.bound_variables.iter(),
+            self.reserved_variables.iter()
+        )
+        .copied()
+        .collect()
+    }
+
     /// Same as [Self::bound_variables()] but with an owned [Rc]
     pub fn owned_bound_variable(&self) -> Rc<[Variable<'bump>]> {
         self.bound_variables.clone()
@@ -218,7 +231,7 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = self.state.used_variables();
         // the only step `arg` can be equal to, when this is syntactically clear
         let concrete = match arg.as_ref() {
             RichFormula::Fun(f, _) => match f.as_inner() {
@@ -238,7 +251,7 @@ impl<'bump> Unfolder<'bump> {
                 .shallow_copy();
 
                 let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -295,7 +308,7 @@ impl<'bump> Unfolder<'bump> {
             // the arguments must not be captured by the bound variables either
             let to_avoid = chain!(
                 q.free_variables.iter().cloned(),
-                self.state.bound_variables().iter().cloned(),
+                self.state.used_variables(),
                 args.iter().flat_map(|arg| arg.free_vars_iter())
             )
             .collect_vec();
@@ -335,7 +348,7 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[_]> = state.used_variables().into();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -344,6 +357,7 @@ where
     let step_origin = args.last().unwrap();
     let is_input = to_expand.is_input();
 
+    let cells_state_variables = Rc::clone(&state_variables);
     let cells_iter = cells.iter().flat_map(|c| c.assignements().iter()).map(
         move |ma @ Assignement {
                   step,
@@ -356,7 +370,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &cells_state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -384,7 +398,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &state_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index ad43770..3acb651 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -415,7 +415,11 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                // what we bind mustn't capture the variables of `x` nor the free ones of `formula`
+                let reserved_variables = itertools::chain!(x.free_vars_iter(), (&formula).free_vars_iter())
+                    .unique()
+                    .collect_vec();
+                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).reserved_variables(reserved_variables).build().unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0


From bf1b2f322feaaa32f1b28a4ec105cf691aa66366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:42 +0000
Subject: [PATCH 24/54] fix: merging existentials must not capture the free
 variables of the other disjuncts

---
 crates/cryptovampire/src/subterm/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 3acb651..8711a28 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -707,9 +707,9 @@ pub fn into_exist_formula<'bump>(
     }
     // further expand vars
     for (var, f_idx) in vars.iter_mut() {
-        for (i, (vars, _)) in content.iter().enumerate() {
-            if !vars.contains_var(var) {
-                // if `var` doesn't clash with any variables in `vars` we can add the formula to the bag
+        for (i, (vars, f)) in content.iter().enumerate() {
+            if !vars.contains_var(var) && !f.free_vars_iter().contains_var(var) {
+                // if `var` doesn't clash with any variables in `vars` or `f` we can add the formula to the bag
                 f_idx.insert(i);
             }
         }
-- 
2.43.0


From fc29555ee5bdd6e8316debef1b7135f1628968f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 25/54] fix: bound variables never have the name of a declared
 symbol

---
 crates/cryptovampire/src/formula/variable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/variable.rs b/crates/cryptovampire/src/formula/variable.rs
index 7a44c1d..28ba1fe 100644
--- a/crates/cryptovampire/src/formula/variable.rs
+++ b/crates/cryptovampire/src/formula/variable.rs
@@ -23,7 +23,8 @@ pub struct Variable<'bump> {
 }
 impl<'bump> fmt::Display for Variable<'bump> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}X{}", self.sort.short_name(), self.id)
+        // `$` can't be in the name of something the user declared
+        write!(f, "{}X${}", self.sort.short_name(), self.id)
     }
 }
 
-- 
2.43.0


From 8ad728639d07bca10d8efab56ad76055d2f512f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 26/54] fix: quote the symbols that are not simple, and reserve
 the words of smtlib for types too

---
 crates/cryptovampire/src/parser/mod.rs        | 15 +++++
 .../src/parser/parser/declare.rs              |  4 +-
 crates/cryptovampire/src/smt/smt/display.rs   | 59 ++++++++++++-------
 3 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/crates/cryptovampire/src/parser/mod.rs b/crates/cryptovampire/src/parser/mod.rs
index fccd695..1c1a343 100644
--- a/crates/cryptovampire/src/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/mod.rs
@@ -49,6 +49,21 @@ pub const USED_KEYWORDS: &[&str] = &[
     "Int",
     "Real",
     "Array",
+    // other reserved words and theory symbols of smtlib
+    "par",
+    "as",
+    "let",
+    "distinct",
+    "xor",
+    "select",
+    "store",
+    "div",
+    "mod",
+    "abs",
+    "String",
+    // ours
+    "evaluate_msg",
+    "evaluate_cond",
 ];
 
 // pub type MResult<T> = std::result::Result<T, error::InputError>;
diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 96c6515..5d53fa5 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -47,7 +47,9 @@ where
         })
         .try_for_each(|s| {
             let name = s.name();
-            if env.sort_hash.contains_key(name.borrow()) {
+            if env.sort_hash.contains_key(name.borrow())
+                || env.used_name.contains::<str>(name.borrow())
+            {
                 // err(merr(
                 //     *s.get_name_span(),
                 //     f!("the sort name {} is already in use", name),
diff --git a/crates/cryptovampire/src/smt/smt/display.rs b/crates/cryptovampire/src/smt/smt/display.rs
index 7cdafb6..caf35de 100644
--- a/crates/cryptovampire/src/smt/smt/display.rs
+++ b/crates/cryptovampire/src/smt/smt/display.rs
@@ -111,23 +111,37 @@ generate_diplay!(SmtFormula);
 //     }
 // }
 
+/// `name` as an smtlib symbol: anything that isn't a simple symbol is quoted
+fn symbol(name: impl fmt::Display) -> String {
+    let name = name.to_string();
+    let is_simple = !name.starts_with(|c: char| c.is_ascii_digit())
+        && name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || "~!@$%^&*_-+=<>.?/".contains(c));
+    if is_simple {
+        name
+    } else {
+        format!("|{name}|")
+    }
+}
+
 impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self.content {
-            SmtFormula::Var(v) => v.fmt(f),
+            SmtFormula::Var(v) => symbol(v).fmt(f),
             SmtFormula::Fun(fun, args) if fun.is_no_op(&self.env) => {
                 assert_eq!(args.len(), 1);
                 args[0].prop(*self).fmt(f)
             }
             SmtFormula::Fun(fun, args) => {
                 if !args.is_empty() {
-                    write!(f, "({} ", fun.name())?;
+                    write!(f, "({} ", symbol(fun.name()))?;
                     for arg in args {
                         write!(f, "{} ", self.propagate(arg))?;
                     }
                     write!(f, ")")
                 } else {
-                    write!(f, "{} ", fun.name())
+                    write!(f, "{} ", symbol(fun.name()))
                 }
             }
             SmtFormula::Forall(vars, formula) | SmtFormula::Exists(vars, formula)
@@ -138,14 +152,14 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Forall(vars, formula) => {
                 write!(f, "(forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", symbol(v), symbol(v.sort))?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
             SmtFormula::Exists(vars, formula) => {
                 write!(f, "(exists (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", symbol(v), symbol(v.sort))?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
@@ -176,7 +190,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Subterm(fun, a, b) => write!(
                 f,
                 "(subterm {} {} {})",
-                fun.name(),
+                symbol(fun.name()),
                 a.prop(*self),
                 b.prop(*self),
             ),
@@ -192,26 +206,31 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             Smt::Assert(e) => writeln!(f, "(assert {})", e.prop(*self)),
             Smt::AssertTh(e) => writeln!(f, "(assert-theory {})", e.prop(*self)),
             Smt::AssertGround { sort, formula } => {
-                writeln!(f, "(assert-ground {sort} {})", formula.prop(*self))
+                writeln!(
+                    f,
+                    "(assert-ground {} {})",
+                    symbol(sort),
+                    formula.prop(*self)
+                )
             }
             Smt::AssertNot(e) => writeln!(f, "(assert-not {})", e.prop(*self)),
             Smt::DeclareFun(fun) => {
-                write!(f, "(declare-fun {} (", fun.name())?;
+                write!(f, "(declare-fun {} (", symbol(fun.name()))?;
                 for s in fun.fast_insort().unwrap_or_else(|| {
                     panic!("all function defined here have known sort: {}", fun.name())
                 }) {
-                    write!(f, "{} ", s.name())?;
+                    write!(f, "{} ", symbol(s.name()))?;
                 }
-                writeln!(f, ") {})", fun.fast_outsort().unwrap())
+                writeln!(f, ") {})", symbol(fun.fast_outsort().unwrap()))
             }
-            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", sort),
+            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", symbol(sort)),
             Smt::DeclareSortAlias { from, to } => {
-                writeln!(f, "(define-sort {} () {})", to.name(), from.name())
+                writeln!(f, "(define-sort {} () {})", symbol(to.name()), symbol(from.name()))
             }
             Smt::DeclareSubtermRelation(fun, funs) => {
-                write!(f, "(declare-subterm-relation {} ", fun.name())?;
+                write!(f, "(declare-subterm-relation {} ", symbol(fun.name()))?;
                 for fun in funs {
-                    write!(f, "{} ", fun.name())?;
+                    write!(f, "{} ", symbol(fun.name()))?;
                 }
                 writeln!(f, ")")
             }
@@ -223,11 +242,11 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             } => {
                 write!(f, "(declare-rewrite (forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", symbol(v), symbol(v.sort))?;
                 }
                 let op = match rewrite_fun {
-                    RewriteKind::Bool => "=".into(),
-                    RewriteKind::Other(f) => f.name(),
+                    RewriteKind::Bool => "=".to_string(),
+                    RewriteKind::Other(f) => symbol(f.name()),
                 };
                 writeln!(f, ") ({} {} {})))", op, lhs.prop(*self), rhs.prop(*self))
             }
@@ -236,7 +255,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                 // name of types
                 write!(f, "\t(")?;
                 for s in sorts.iter() {
-                    write!(f, "({} 0) ", s)?;
+                    write!(f, "({} 0) ", symbol(s))?;
                 }
                 write!(f, ")\n\t(\n")?;
 
@@ -246,10 +265,10 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                     for c in vc {
                         assert_eq!(sorts[j], c.fun.fast_outsort().unwrap());
 
-                        write!(f, "\t\t\t({} ", c.fun.name())?;
+                        write!(f, "\t\t\t({} ", symbol(c.fun.name()))?;
 
                         for (i, s) in c.fun.fast_insort().expect("todo").iter().enumerate() {
-                            write!(f, "({} {}) ", c.dest.get(i).unwrap().name(), s)?;
+                            write!(f, "({} {}) ", symbol(c.dest.get(i).unwrap().name()), symbol(s))?;
                         }
                         writeln!(f, ")")?;
                     }
-- 
2.43.0


From 9752d69a32350959957eb786f0a946afa5da6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:43 +0000
Subject: [PATCH 27/54] fix: fresh variables are not parameters of a step or of
 an assignement either

---
 crates/cryptovampire/src/problem/problem/mod.rs | 9 +++++++--
 crates/cryptovampire/src/problem/protocol.rs    | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index 7fba1bc..187db07 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -100,12 +100,17 @@ impl<'bump> Problem<'bump> {
     }
 
     pub fn max_var(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms()).max_var()
+        // the parameters of steps and assignements may not appear in any term
+        UsedVariableIterator::with(self.list_top_level_terms())
+            .max_var()
+            .max(self.protocol.max_var())
     }
 
     /// [Self::max_var] without [Self::extra_instances]
     pub fn max_var_no_extras(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms_no_extra()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms_no_extra())
+            .max_var()
+            .max(self.protocol.max_var())
     }
 
     pub fn container(&self) -> &'bump ScopedContainer<'bump> {
diff --git a/crates/cryptovampire/src/problem/protocol.rs b/crates/cryptovampire/src/problem/protocol.rs
index 3bc5a79..bda3678 100644
--- a/crates/cryptovampire/src/problem/protocol.rs
+++ b/crates/cryptovampire/src/problem/protocol.rs
@@ -139,7 +139,7 @@ impl<'bump> Protocol<'bump> {
         *self.max_var.get_or_init(|| {
             self.steps()
                 .iter()
-                .flat_map(|s| s.occuring_variables())
+                .flat_map(|s| s.occuring_variables().iter().chain(s.free_variables()))
                 .chain(
                     self.memory_cells()
                         .iter()
-- 
2.43.0


From 559ad39b5249fcb2917f3a8a4c8b458ad2a9daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 28/54] fix: cells and inputs used inside find and quantifiers
 are dependencies too

---
 .../problem/cell_dependancies/graph/process_functions.rs   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
index 6c73b4d..63e722e 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
@@ -6,6 +6,7 @@ use crate::formula::function::inner::term_algebra::TermAlgebra;
 use crate::problem::cell::Assignement;
 
 use if_chain::if_chain;
+use itertools::chain;
 use logic_formula::outers::RefPile;
 use logic_formula::Content;
 use logic_formula::FormulaIterator;
@@ -162,6 +163,12 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
                         }
                     };
                 }
+                InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) => {
+                    // what `q` binds is in its content, not in its arguments
+                    helper.extend_child_with_default(
+                        chain!(q.get_content_iter(), args.iter()).cloned(),
+                    );
+                }
                 InnerFunction::Step(_) => {
                     // let to_node = ToNode::Input(InputCall {
                     //     step: StepCall::General(current.clone()),
-- 
2.43.0


From 4ae0f52ecde3f120861cb037c6d4b6bbc6eb9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:21 +0000
Subject: [PATCH 29/54] fix: a quiet run that fails exits with an error status

---
 crates/cryptovampire/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 842386d..e75f294 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -43,7 +43,12 @@ fn main() {
     };
 
     match output_format {
-        cryptovampire::cli::Output::Quiet => (),
+        cryptovampire::cli::Output::Quiet => {
+            // the exit status is all there is to read
+            if res.is_err() {
+                std::process::exit(1)
+            }
+        }
         cryptovampire::cli::Output::Stdout => {
             let res = res.unwrap();
             eprintln!("{res}")
-- 
2.43.0


From 26d9bb6ff8f2e2f8c09ec67c55a90974490a0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:21 +0000
Subject: [PATCH 30/54] fix: a satisfiable answer of vampire is not a proof

---
 crates/cryptovampire/src/runner/vampire.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/cryptovampire/src/runner/vampire.rs b/crates/cryptovampire/src/runner/vampire.rs
index 46d188c..366969b 100644
--- a/crates/cryptovampire/src/runner/vampire.rs
+++ b/crates/cryptovampire/src/runner/vampire.rs
@@ -134,6 +134,18 @@ const SUCCESS_RC: i32 = 0;
 /// Timeout return code
 const TIMEOUT_RC: i32 = 1;
 
+/// Did vampire find the problem to be satisfiable?
+fn is_satisfiable(stdout: &str) -> bool {
+    stdout
+        .lines()
+        .map(|l| l.trim_start_matches('%').trim())
+        .any(|l| {
+            l == "Termination reason: Satisfiable"
+                || l.starts_with("SZS status Satisfiable")
+                || l.starts_with("SZS status CounterSatisfiable")
+        })
+}
+
 impl Runner for VampireExec {
     type Args<'a> = &'a [VampireArg];
 
@@ -175,6 +187,8 @@ impl Runner for VampireExec {
                 stdout,
                 return_code,
             } => match return_code {
+                // vampire also returns 0 when it saturates without finding a refutation
+                SUCCESS_RC if is_satisfiable(&stdout) => Ok(RunnerOut::Sat(stdout)),
                 SUCCESS_RC => Ok(RunnerOut::Unsat(stdout)),
                 TIMEOUT_RC => Ok(RunnerOut::Timeout(stdout)),
                 _ => Self::unexpected_result(cmd, return_code, stdout).no_location(),
-- 
2.43.0


From 239eea45614dfb140dc708b307de45e85c747668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 31/54] fix: reject learned terms applying a function to too
 few arguments

---
 crates/cryptovampire/src/formula/base_formula/tmp_formula.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
index 4f9a1c5..bb5e544 100644
--- a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
+++ b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
@@ -80,6 +80,10 @@ impl TmpFormula {
             let sign = f.signature();
             trace!("{:?} : {sign:?}", f.as_inner());
             sign.out().unify(&expected_sort, realm)?;
+            if !sign.args_size().contains(&args.len().into()) {
+                debug!("failed: wrong number of arguments\n\t=>{self}");
+                bail_at!(self, "wrong number of arguments")
+            }
             let mut rf_args = vec![];
             for e in args.iter().zip_longest(sign.args()) {
                 match e {
-- 
2.43.0


From 2de926d17daeee68ba97a6e8430d8ba781c30564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 32/54] fix: both sides of an equality have the same sort

---
 crates/cryptovampire/src/formula/function/inner/booleans.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/inner/booleans.rs b/crates/cryptovampire/src/formula/function/inner/booleans.rs
index 11c0781..073340e 100644
--- a/crates/cryptovampire/src/formula/function/inner/booleans.rs
+++ b/crates/cryptovampire/src/formula/function/inner/booleans.rs
@@ -214,8 +214,8 @@ mod signatures {
 
     #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
     pub struct EqualitySignature<'bump> {
-        left: SortProxy<'bump>,
-        right: SortProxy<'bump>,
+        /// the sort of both sides
+        sort: SortProxy<'bump>,
     }
 
     impl<'bump> Signature<'bump> for EqualitySignature<'bump> {
@@ -234,7 +234,7 @@ mod signatures {
         where
             'bump: 'a,
         {
-            [&self.left, &self.right].map(Clone::clone)
+            [self.sort.clone(), self.sort.clone()]
         }
 
         fn fast(self) -> Option<Self::FxSign> {
-- 
2.43.0


From 437b3ffd90750eaf118d1907f18cbee1b47fc1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 33/54] fix: keep the whole input in error locations

---
 crates/cryptovampire/src/parser/location.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/location.rs b/crates/cryptovampire/src/parser/location.rs
index fa5f946..2e6d4e1 100644
--- a/crates/cryptovampire/src/parser/location.rs
+++ b/crates/cryptovampire/src/parser/location.rs
@@ -164,7 +164,7 @@ impl Locate for PestLocation {
 impl<'str> From<pest::Span<'str>> for PestLocation {
     fn from(span: pest::Span<'str>) -> Self {
         PestLocation {
-            str: span.as_str().into(),
+            str: span.get_input().into(),
             kind: PestKind::Span {
                 start: span.start(),
                 end: span.end(),
@@ -176,7 +176,7 @@ impl<'str> From<pest::Span<'str>> for PestLocation {
 impl<'str> From<pest::Position<'str>> for PestLocation {
     fn from(pos: pest::Position<'str>) -> Self {
         PestLocation {
-            str: pos.span(&pos).as_str().into(),
+            str: pos.span(&pos).get_input().into(),
             kind: PestKind::Position { pos: pos.pos() },
         }
     }
-- 
2.43.0


From 00eb72fc271bb5747d36e78ee78b7f2cbd6bb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 34/54] fix: --disallow-shadowing holds in automatic mode too

---
 crates/cryptovampire/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/cli.rs b/crates/cryptovampire/src/cli.rs
index df5b95d..6e9f412 100644
--- a/crates/cryptovampire/src/cli.rs
+++ b/crates/cryptovampire/src/cli.rs
@@ -316,6 +316,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
             *legacy_evaluate => Flags::LEGACY_EVALUATE,
             *skolemnise => Flags::SKOLEMNISE,
             *no_bitstring && realm.is_symbolic() => Flags::NO_BITSTRING,
+            *disallow_shadowing => Flags::DISALLOW_SHADOWING,
             // *ignore_lemmas => Flags::IGNORE_LEMMAS
         );
 
@@ -354,8 +355,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
                 flags |= mk_bitflag!(
                     *lemmas => Flags::LEMMA,
                     *assert_theory=> Flags::ASSERT_THEORY,
-                    *assert_ground => Flags::ASSERT_GROUND,
-                    *disallow_shadowing => Flags::DISALLOW_SHADOWING
+                    *assert_ground => Flags::ASSERT_GROUND
                 );
                 if *cvc5 {
                     flags -= Flags::ASSERT_GROUND | Flags::ASSERT_NOT | Flags::ASSERT_THEORY;
-- 
2.43.0


From fdffb0ce45dc39b0c9b1c12c57066eb673c07b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 35/54] fix: refuse steps whose terms cannot be unfolded

---
 .../parser/parser/parse_step_cell_asserts.rs  |   2 +-
 .../parser/parse_step_cell_asserts/step.rs    | 131 +++++++++++++++++-
 .../src/parser/parser/parsing_environement.rs |   5 +-
 3 files changed, 132 insertions(+), 6 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts.rs
index 7bf32ae..1d96805 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts.rs
@@ -1,4 +1,4 @@
-pub use step::parse_steps;
+pub use step::{check_steps, parse_steps};
 mod step;
 
 pub use cells::parse_cells;
diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 4a854a7..37fe5a2 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 
 use itertools::Itertools;
 use log::trace;
@@ -8,10 +8,21 @@ use crate::{
     container::{allocator::ContainerTools, ScopedContainer},
     environement::traits::Realm,
     formula::{
-        sort::builtins::{CONDITION, MESSAGE},
+        formula::{ARichFormula, RichFormula},
+        function::{
+            inner::{
+                step::StepFunction,
+                term_algebra::{step_macro::Macro, TermAlgebra},
+            },
+            InnerFunction,
+        },
+        sort::builtins::{CONDITION, MESSAGE, STEP},
         variable::{from_usize, Variable},
     },
-    problem::{cell::Assignement, step::InnerStep},
+    problem::{
+        cell::Assignement,
+        step::{InnerStep, Step},
+    },
 };
 use crate::{
     error::{BaseContext, BaseError, CVContext, ExtraOption},
@@ -224,3 +235,117 @@ where
             r_err.with_context(&ast.name, || "step already defined")
         })
 }
+
+/// Checks that the terms of the steps and of their assignements have a meaning
+///
+/// Step macros can be unfolded: they are applied to a step of the protocol, and
+/// no message or condition depends on itself.
+///
+/// This must run after [parse_steps]
+pub fn check_steps<'a, 'bump, 'str, S>(
+    env: &'a Environement<'bump, 'str, S>,
+    steps: implvec!(&'a StepCache<'str, 'bump, S>),
+) -> crate::Result<()>
+where
+    S: Pstr,
+    for<'b> StrRef<'b>: From<&'b S>,
+{
+    // everything below the messages and conditions in `done` was checked
+    let mut done = HashSet::new();
+    for StepCache { ast, step, .. } in steps {
+        let assignements = env
+            .functions
+            .values()
+            .filter_map(FunctionCache::as_memory_cell)
+            .flat_map(|cell| cell.assignements.lock().unwrap().clone())
+            .filter(|a| a.step == *step)
+            .map(|a| a.content)
+            .collect_vec();
+        unfold_macro(step, Macro::Message, &mut vec![], &mut done)
+            .and_then(|_| unfold_macro(step, Macro::Condition, &mut vec![], &mut done))
+            .and_then(|_| {
+                assignements
+                    .iter()
+                    .try_for_each(|a| check_protocol_term(a, &mut vec![], &mut done))
+            })
+            .map_err(|msg| crate::error_at!(&ast.name, "in step {}: {msg}", step.name()))?
+    }
+    Ok(())
+}
+
+type StepMacro<'bump> = (Step<'bump>, Macro);
+
+fn unfold_macro<'bump>(
+    step: &Step<'bump>,
+    kind: Macro,
+    pending: &mut Vec<StepMacro<'bump>>,
+    done: &mut HashSet<StepMacro<'bump>>,
+) -> Result<(), String> {
+    let current = (*step, kind);
+    if done.contains(&current) {
+        return Ok(());
+    }
+    if pending.contains(&current) {
+        return Err(format!(
+            "the {} of {} depends on itself",
+            kind.name(),
+            step.name()
+        ));
+    }
+    let content = match kind {
+        Macro::Message => step.message_arc(),
+        Macro::Condition => step.condition_arc(),
+        _ => return Ok(()),
+    };
+    pending.push(current);
+    check_protocol_term(content, pending, done)?;
+    pending.pop();
+    done.insert(current);
+    Ok(())
+}
+
+fn check_protocol_term<'bump>(
+    term: &ARichFormula<'bump>,
+    pending: &mut Vec<StepMacro<'bump>>,
+    done: &mut HashSet<StepMacro<'bump>>,
+) -> Result<(), String> {
+    match term.as_ref() {
+        RichFormula::Var(v) if *v.sort() == STEP.as_sort() => {
+            Err("variables of sort step are not allowed in protocols".into())
+        }
+        RichFormula::Var(_) => Ok(()),
+        RichFormula::Quantifier(_, arg) => check_protocol_term(arg, pending, done),
+        RichFormula::Fun(fun, args) => match fun.as_inner() {
+            InnerFunction::TermAlgebra(TermAlgebra::Cell(_)) => Ok(()),
+            InnerFunction::TermAlgebra(TermAlgebra::Macro(Macro::Exec)) => {
+                Err("exec is not allowed in protocols".into())
+            }
+            InnerFunction::TermAlgebra(TermAlgebra::Macro(kind)) => {
+                let step = match args.first().map(|arg| arg.as_ref()) {
+                    Some(RichFormula::Fun(f, _)) => match f.as_inner() {
+                        InnerFunction::Step(StepFunction::Step(s)) => Some(s.step()),
+                        _ => None,
+                    },
+                    _ => None,
+                };
+                match step {
+                    Some(step) => unfold_macro(&step, *kind, pending, done),
+                    None => Err(format!(
+                        "{} must be applied to a step of the protocol",
+                        kind.name()
+                    )),
+                }
+            }
+            InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) => q
+                .get_content_iter()
+                .chain(args.iter())
+                .try_for_each(|t| check_protocol_term(t, pending, done)),
+            InnerFunction::Step(_) => {
+                Err("steps are only allowed as arguments of cells and macros".into())
+            }
+            _ => args
+                .iter()
+                .try_for_each(|t| check_protocol_term(t, pending, done)),
+        },
+    }
+}
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement.rs b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
index 9aef2f6..57e2b5b 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
@@ -29,8 +29,8 @@ use crate::{
         error::ParsingError,
         location::ASTLocation,
         parser::{
-            parse_assert_with_bvars, parse_asserts_crypto, parse_asserts_with_bvars, parse_cells,
-            parse_orders_with_bvars, parse_steps,
+            check_steps, parse_assert_with_bvars, parse_asserts_crypto, parse_asserts_with_bvars,
+            parse_cells, parse_orders_with_bvars, parse_steps,
         },
         Pstr,
     },
@@ -331,6 +331,7 @@ where
 
     trace!("[P] \t- parse steps...");
     parse_steps::<S>(&env, env.functions.values().filter_map(|f| f.as_step()))?;
+    check_steps::<S>(&env, env.functions.values().filter_map(|f| f.as_step()))?;
     trace!("[P] \t[DONE]");
     trace!("[P] \t- parse cells...");
     parse_cells::<S>(
-- 
2.43.0


From 45a60e6f18e8c01ef5e6848ed58686f7f5434283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 36/54] fix: check the sort of an if in symbolic terms

---
 .../src/parser/parser/parsable_trait.rs            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 391dbd8..f7350bb 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -169,14 +169,16 @@ where
         let (es_condition, es_branches): (SortProxy<'bump>, Option<SortProxy<'bump>>) =
             match state.get_realm() {
                 Realm::Evaluated => (BOOL.as_sort().into(), expected_sort),
-                Realm::Symbolic => (CONDITION.as_sort().into(), Some(MESSAGE.as_sort().into())),
+                Realm::Symbolic => {
+                    // check sort
+                    expected_sort.into_iter().try_for_each(|s| {
+                        s.expects(MESSAGE.as_sort(), &state)
+                            .with_location(|| &self.span)
+                    })?;
+                    (CONDITION.as_sort().into(), Some(MESSAGE.as_sort().into()))
+                }
             };
 
-        // check sort
-        // if let Some(es) = &expected_sort {
-        //     es_branches.unify(es, &state).with_location(&self.span).debug_continue()?;
-        // }
-
         let ast::IfThenElse {
             condition,
             left,
-- 
2.43.0


From f3924236c20d1a9830b777b30edb23513bf298ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 37/54] fix: report an unreadable input like any other error

---
 crates/cryptovampire/src/main.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index e75f294..ca0b28a 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -4,7 +4,9 @@ use std::{
 };
 
 use clap::Parser;
-use cryptovampire::{cli::Args, init_logger, run_from_cv, squirrel::run_from_json, Return};
+use cryptovampire::{
+    cli::Args, error_at, init_logger, run_from_cv, squirrel::run_from_json, Return,
+};
 
 use log::trace;
 
@@ -18,23 +20,24 @@ fn main() {
     trace!("read input...");
     let str = {
         if let Some(file) = &args.file {
-            read_to_string(file).unwrap_or_else(|_| {
-                panic!(
-                    "file \"{}\" not found",
+            read_to_string(file).map_err(|e| {
+                error_at!(
+                    @ "unable to read the file \"{}\": {e}",
                     file.to_str().unwrap_or("[non-unicode file name]")
                 )
             })
         } else {
             let mut buf = String::new();
-            Read::read_to_string(&mut io::stdin(), &mut buf).expect("unable to read stdin");
-            buf
+            Read::read_to_string(&mut io::stdin(), &mut buf)
+                .map(|_| buf)
+                .map_err(|e| error_at!(@ "unable to read stdin: {e}"))
         }
     };
     trace!("input read");
-    let res = match args.input_format {
+    let res = str.and_then(|str| match args.input_format {
         cryptovampire::cli::Input::Cryptovampire => run_from_cv(args, &str),
         cryptovampire::cli::Input::SquirrelJSON => run_from_json(args, &str).map(Return::Many),
-    };
+    });
 
     let res = if cfg!(debug_assertions) {
         Ok(res.unwrap())
-- 
2.43.0


From 6f677a399a7f52130ea9f89380c274879f988f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 38/54] fix: refuse macros defined from themselves

---
 .../src/parser/parser/parsable_trait.rs       | 20 +++++++++-------
 .../src/parser/parser/parsing_environement.rs | 24 +++++++++++++++++--
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index f7350bb..40dfd27 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -617,14 +617,16 @@ where
 
                 let mut nbvars = step_cache.args_vars_with_input().map_into().collect();
 
-                let (to_parse, _) = match inner {
-                    ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, MESSAGE.as_sort()),
-                    ast::InnerAppMacro::Cond(_) => (&step_cache.ast.condition, CONDITION.as_sort()),
+                let (to_parse, kind) = match inner {
+                    ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, "msg"),
+                    ast::InnerAppMacro::Cond(_) => (&step_cache.ast.condition, "cond"),
                     _ => unreachable!(),
                 };
 
-                let term = to_parse
-                    .parse(env, &mut nbvars, state, expected_sort)
+                let term = env
+                    .expand_macro(app, format!("{kind}!({})", app.name()), || {
+                        to_parse.parse(env, &mut nbvars, state, expected_sort)
+                    })
                     .debug_continue()?;
 
                 Ok(term
@@ -683,10 +685,10 @@ where
                             (var_name.clone(), Variable::new(id, *var_sort).into())
                         })
                         .collect_vec();
-                    mmacro
-                        .content
-                        .parse(env, &mut bvars, state, expected_sort)
-                        .debug_continue()
+                    env.expand_macro(name, format!("{}!", name.name()), || {
+                        mmacro.content.parse(env, &mut bvars, state, expected_sort)
+                    })
+                    .debug_continue()
                 }?;
 
                 Ok(term
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement.rs b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
index 57e2b5b..6b519ed 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Borrow, collections::VecDeque, ops::Deref, sync::Arc};
+use std::{borrow::Borrow, cell::RefCell, collections::VecDeque, ops::Deref, sync::Arc};
 
 use hashbrown::{HashMap, HashSet};
 use itertools::Itertools;
@@ -23,7 +23,7 @@ use crate::{
     },
 };
 use crate::{
-    error::{CVContext, LocateHelper},
+    error::{CVContext, LocateHelper, LocationProvider},
     parser::{
         ast::{self, ASTList},
         error::ParsingError,
@@ -82,6 +82,8 @@ pub struct Environement<'bump, 'str, S> {
 
     pub used_name: HashSet<String>,
     pub allow_shadowing: bool,
+    /// the macros we are currently expanding
+    expanding: RefCell<Vec<String>>,
 }
 
 impl<'bump, 'str, S> MaybeInvalid for Environement<'bump, 'str, S> {
@@ -95,6 +97,7 @@ impl<'bump, 'str, S> MaybeInvalid for Environement<'bump, 'str, S> {
             functions,
             used_name: _,
             allow_shadowing: _,
+            expanding: _,
         } = self;
 
         functions.values().all(|v| match v {
@@ -138,9 +141,26 @@ impl<'bump, 'str, S> Environement<'bump, 'str, S> {
             functions: function_hash,
             used_name: names,
             allow_shadowing,
+            expanding: Default::default(),
         }
     }
 
+    /// Expands the macro `name` with `f`, unless `name` is defined from itself
+    pub fn expand_macro<R>(
+        &self,
+        location: impl LocationProvider,
+        name: String,
+        f: impl FnOnce() -> crate::Result<R>,
+    ) -> crate::Result<R> {
+        if RefCell::borrow(&self.expanding).contains(&name) {
+            crate::bail_at!(location, "the macro {name} is defined from itself")
+        }
+        self.expanding.borrow_mut().push(name);
+        let ret = f();
+        self.expanding.borrow_mut().pop();
+        ret
+    }
+
     pub fn contains_name(&self, name: &str) -> bool {
         self.functions.contains_key(name) || self.used_name.contains(name)
     }
-- 
2.43.0


From 48e0415786cbe295d6d4adfbaae146970a302fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 39/54] fix: refuse functions returning a sort they cannot
 return

---
 crates/cryptovampire/src/parser/parser/declare.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 5d53fa5..8368f4b 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -202,6 +202,13 @@ where
                 // user defined bool functions are condition
                 .map(user_bool_to_condtion)
         }?;
+        if !output_sort.is_term_algebra() {
+            bail_at!(
+                &fun.out().span,
+                "a function cannot return {}",
+                output_sort.name()
+            )
+        }
         let fun = if output_sort == NAME.as_sort() {
             Function::new_from_inner(
                 env.container,
-- 
2.43.0


From 5da01b0a41f62ffbc3d069c9f79ea8de1a292899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 40/54] fix: memory cells can be evaluated before they are
 defined

---
 .../src/parser/parser/parsable_trait.rs              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 40dfd27..683911e 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -548,7 +548,17 @@ where
     };
     // if we are in evaluated land, evaluate
     let formula = match (state.get_realm(), formula_realm) {
-        (Realm::Evaluated, Some(Realm::Symbolic)) => env.evaluator.try_eval(formula).unwrap(),
+        (Realm::Evaluated, Some(Realm::Symbolic)) => {
+            // the memory cells might not be valid yet, so trust the signature first
+            let evaluate = signature
+                .out()
+                .as_option()
+                .and_then(|s| env.evaluator.get_eval_function(s));
+            match evaluate {
+                Some(evaluate) => evaluate.f([formula]),
+                None => env.evaluator.try_eval(formula).unwrap(),
+            }
+        }
         _ => formula,
     };
 
-- 
2.43.0


From f6cccc59f6338f56989b7e13627ecb18ca822251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 41/54] fix: parse nested applications in linear time

---
 crates/cryptovampire/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/grammar.pest b/crates/cryptovampire/grammar.pest
index 0ecc4aa..a34dea5 100644
--- a/crates/cryptovampire/grammar.pest
+++ b/crates/cryptovampire/grammar.pest
@@ -42,7 +42,7 @@ infix_term = {"(" ~ term ~ (operation ~ term)+ ~ ")" }
 
 application = {(function | variable) ~ inner_application?}
     inner_application = _{(  "(" ~ inner_inner_application ~")"  ) | ("[" ~ inner_inner_application ~ "]") }
-    inner_inner_application = _{(term ~ ",")* ~ term?}
+    inner_inner_application = _{(term ~ ("," ~ term)* ~ ","?)?}
 macro_application = {macro_name ~ inner_application?}
 if_then_else = {"if" ~ term ~ bracketed_term ~ "else" ~ bracketed_term}
 find_such_that = {"try" ~ "find" ~
-- 
2.43.0


From a9f5de373248ebff2c01abd15726b3f2aa2ff1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 42/54] fix: keep the whole input in the locations of spans

---
 crates/cryptovampire/src/error/location/pest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/error/location/pest.rs b/crates/cryptovampire/src/error/location/pest.rs
index c431bb7..6549f71 100644
--- a/crates/cryptovampire/src/error/location/pest.rs
+++ b/crates/cryptovampire/src/error/location/pest.rs
@@ -37,7 +37,7 @@ impl Locate for SpanLocation {
 impl<'str> LocationProvider for pest::Span<'str> {
     fn provide(self) -> super::Location {
         let span_location = SpanLocation {
-            str: self.as_str().into(),
+            str: self.get_input().into(),
             start: self.start(),
             end: self.end(),
         };
-- 
2.43.0


From f23fc11d9953771804ba16a72afdcca4c03ce79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 43/54] fix: msg! and cond! take exactly one step

---
 crates/cryptovampire/src/parser/ast/macros.rs | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/parser/ast/macros.rs b/crates/cryptovampire/src/parser/ast/macros.rs
index 6ceb9aa..a7e5471 100644
--- a/crates/cryptovampire/src/parser/ast/macros.rs
+++ b/crates/cryptovampire/src/parser/ast/macros.rs
@@ -52,12 +52,17 @@ pub struct AppMacro<'str, S> {
 
 fn from_term_to_application(p: Pair<'_, Rule>) -> Result<Application<'_, &str>> {
     debug_rule!(p, term);
+    let span = p.as_span();
     let p = p.into_inner().next().unwrap();
     debug_rule!(p, inner_term);
     let p = p.into_inner().next().unwrap();
-    debug_rule!(p, commun_base);
-    let p = p.into_inner().next().unwrap();
-    p.try_into()
+    if p.as_rule() == Rule::commun_base {
+        let p = p.into_inner().next().unwrap();
+        if p.as_rule() == Rule::application {
+            return p.try_into();
+        }
+    }
+    crate::bail_at!(span, "a step was expected")
 }
 
 boiler_plate!(@ AppMacro, 'a, macro_application; |p| {
@@ -67,8 +72,17 @@ boiler_plate!(@ AppMacro, 'a, macro_application; |p| {
         let name: MacroName<'a, &str> = p.next().unwrap().try_into()?;
 
         match name.0.content.content {
-            "msg" => InnerAppMacro::Msg(from_term_to_application(p.next().unwrap())?),
-            "cond" => InnerAppMacro::Cond(from_term_to_application(p.next().unwrap())?),
+            kind @ ("msg" | "cond") => {
+                let (Some(step), None) = (p.next(), p.next()) else {
+                    crate::bail_at!(span, "{kind}! takes exactly one step")
+                };
+                let step = from_term_to_application(step)?;
+                if kind == "msg" {
+                    InnerAppMacro::Msg(step)
+                } else {
+                    InnerAppMacro::Cond(step)
+                }
+            }
             _ => {
                 let args : Result<Vec<_>> = p.map(TryInto::try_into).collect();
                 InnerAppMacro::Other { name, args: args? }
-- 
2.43.0


From d98806f3361a099586fd6eaca6d0862997381f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 44/54] fix: a function returning a step is refused too

---
 crates/cryptovampire/src/parser/parser/declare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 8368f4b..5819787 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -202,7 +202,7 @@ where
                 // user defined bool functions are condition
                 .map(user_bool_to_condtion)
         }?;
-        if !output_sort.is_term_algebra() {
+        if output_sort != NAME.as_sort() && !output_sort.is_evaluatable() {
             bail_at!(
                 &fun.out().span,
                 "a function cannot return {}",
-- 
2.43.0


From 7d0ec84b22ffcf8952bfa4135ffc2433d78685e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 45/54] fix: a memory cell declared with another sort than
 messages is refused

---
 crates/cryptovampire/src/parser/parser/declare.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 5819787..63d55f2 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -291,6 +291,11 @@ where
         // return err(merr(*span, f!("the cell name {} is already in use", &name)));
     }
 
+    let SnN { span, name: sort } = fun.out();
+    if get_sort(env, span, sort.as_ref())? != MESSAGE.as_sort() {
+        bail_at!(span, "a cell can only contain a {}", MESSAGE.name())
+    }
+
     let input_sorts: Result<Vec<_>, _> = fun
         .args()
         .into_iter()
-- 
2.43.0


From d23646f46e2c5759cdcae76696dbadf66bacb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 46/54] fix: order subterms without following the functions
 that refer back to them

---
 crates/cryptovampire/src/subterm/mod.rs | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8711a28..fc7cac7 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -36,7 +36,7 @@ use crate::{
     },
     mforall,
 };
-use utils::{implvec, partial_order, traits::NicerError, utils::AlreadyInitialized};
+use utils::{implvec, traits::NicerError, utils::AlreadyInitialized};
 
 pub(crate) mod kind;
 pub(crate) mod traits;
@@ -74,7 +74,29 @@ impl<'bump, Aux> PartialOrd for Subterm<'bump, Aux>
 where
     Aux: SubtermAux<'bump> + PartialOrd,
 {
-    partial_order!(aux, kind, ignored_functions);
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        // the functions of `kind` refer back to their subterm, hence they are
+        // compared by address (as in `eq`) and not by content
+        fn by_address(kind: &SubtermKindWFunction<'_>) -> Vec<*const ()> {
+            match kind {
+                AbsSubtermKindG::Regular(funs) => funs
+                    .values()
+                    .map(|f| f.to_raw().as_ptr() as *const ())
+                    .collect(),
+                AbsSubtermKindG::Vampire(f) => vec![f.to_raw().as_ptr() as *const ()],
+            }
+        }
+
+        match self.aux.partial_cmp(&other.aux) {
+            Some(std::cmp::Ordering::Equal) => {}
+            ord => return ord,
+        }
+        match self.ignored_functions.partial_cmp(&other.ignored_functions) {
+            Some(std::cmp::Ordering::Equal) => {}
+            ord => return ord,
+        }
+        Some(by_address(&self.kind).cmp(&by_address(&other.kind)))
+    }
 }
 impl<'bump, Aux> PartialEq for Subterm<'bump, Aux>
 where
-- 
2.43.0


From 72ea07ab40005c9cdb33cb26391c4fc35c038bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 47/54] fix: give z3 its time limit in whole seconds

---
 crates/cryptovampire/src/runner/runners.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/runner/runners.rs b/crates/cryptovampire/src/runner/runners.rs
index 87e3954..5d72901 100644
--- a/crates/cryptovampire/src/runner/runners.rs
+++ b/crates/cryptovampire/src/runner/runners.rs
@@ -131,7 +131,8 @@ impl TryFrom<SolverConfig> for Runners {
         };
         let z3 = z3.map(|location| Z3Runner {
             location,
-            extra_args: vec![format!("-T:{timeout:}")],
+            // z3 only takes whole seconds
+            extra_args: vec![format!("-T:{:}", timeout.ceil() as u32)],
         });
 
         let cvc5 = None;
-- 
2.43.0


From 5b860d703c0a23a22c35750279027c3c25a3353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 48/54] fix: let whoever knows the key encrypt in the general
 int-ctxt axiom

---
 .../problem/crypto_assumptions/int_ctxt.rs    | 42 ++++++++++---------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 131ab70..22ee8c3 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -142,26 +142,28 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
-                    mexists!(m!4:message_sort, r!5:nonce_sort; {
-                        let r_f = nc.cast(message_sort, r);
-                        let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-                        meq(ev.eval(c), ev.eval(c2.clone())) &
-                        (
-                            subterm_main.f_a(env,  c2.clone(), c.into()) |
-                            subterm_key.f_a(env,  k, c) |
-                            subterm_rand.f_a(env, r, c) |
-                            (mexists!(m2!6:message_sort, k2!7:message_sort, r2!8:message_sort; {
-                                subterm_main.f_a(env, self.enc.f([m2.into(), r2.into(), k_f.clone()]), c.into())
-                                & (
-                                    (mforall!(n!9:nonce_sort; {!meq(r2, nc.cast(message_sort, n))})) |
-                                    ( meq(r2, r_f.clone()) &
-                                        ((!meq(m2, m)) | (!meq(k2, k_f.clone())))
-                                    )
-                                )
-                            }))
-                        )
-                    })
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >> (
+                        // whoever knows the key, or sees it used with something else than a name, can encrypt with
+                        // any randomness
+                        subterm_key.f_a(env,  k, c) |
+                        (mexists!(m2!6:message_sort, r2!8:message_sort; {
+                            subterm_main.f_a(env, self.enc.f([m2.into(), r2.into(), k_f.clone()]), c.into())
+                            & (mforall!(n!9:nonce_sort; {!meq(r2, nc.cast(message_sort, n))}))
+                        })) |
+                        mexists!(m!4:message_sort, r!5:nonce_sort; {
+                            let r_f = nc.cast(message_sort, r);
+                            let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
+                            meq(ev.eval(c), ev.eval(c2.clone())) &
+                            (
+                                subterm_main.f_a(env,  c2.clone(), c.into()) |
+                                subterm_rand.f_a(env, r, c) |
+                                (mexists!(m2!6:message_sort, k2!7:message_sort; {
+                                    subterm_main.f_a(env, self.enc.f([m2.into(), r_f.clone(), k_f.clone()]), c.into())
+                                    & ((!meq(m2, m)) | (!meq(k2, k_f.clone())))
+                                }))
+                            )
+                        })
+                    )
                 }),
             })
         }
-- 
2.43.0


From dbdfaadba17031c94933266373245bdc15758a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 49/54] fix: squirrel: translate <=> to the Boolean
 equivalence, not to message equality

---
 crates/cryptovampire/src/squirrel/converters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/mod.rs b/crates/cryptovampire/src/squirrel/converters/mod.rs
index a622c5f..4d47fc3 100644
--- a/crates/cryptovampire/src/squirrel/converters/mod.rs
+++ b/crates/cryptovampire/src/squirrel/converters/mod.rs
@@ -39,7 +39,7 @@ static REMMAPPED_FUNCTION: HashMap<&'static str, StrRef<'static>> = {
         ("and", AND.name()),
         ("||", OR.name()),
         ("or", OR.name()),
-        ("<=>", EQUALITY.name()),
+        ("<=>", "<=>".into()),
         ("=>", IMPLIES.name()),
         ("=", EQUALITY.name()),
         ("<>", "!=".into()),
-- 
2.43.0


From 04ac3952ebabcae5cfeccddb466741706cce01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 50/54] fix: squirrel: convert tuples in order, so that
 projections pick the right component

---
 .../converters/helper_functions/convertion_functions.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 277fdcb..ed1e3b5 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -301,7 +301,7 @@ pub fn convert_tuple<'a>(
 ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
     let empty =
         mdo! { pure ast::Application::new_app(Default::default(),EMPTY_FUN_NAME.into(), []).into()};
-    elements.iter().fold(empty, |acc, t| {
+    elements.iter().rev().fold(empty, |acc, t| {
         let acc = acc?;
         let t = t.convert(ctx)?;
         mdo! {
-- 
2.43.0


From 0c0489017b878ceb3bf1880ffb6c7d07592274a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 51/54] fix: squirrel: declare a fresh index of a state update
 once

---
 crates/cryptovampire/src/squirrel/converters/ast_convertion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 2ef5478..8b714c2 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -243,6 +243,7 @@ impl<'a, 'b> ToAst<'a> for json::action::UpdateRef<'a, 'b> {
             .iter()
             .flat_map(|t| t.vars())
             .filter(|v| !action.indices.contains(v))
+            .unique()
             .map(|var| {
                 mdo! {
                     let! sort = var.sort().convert(ctx);
-- 
2.43.0


From fe38a89455e6259badfaa58a0eb0a8f4421a28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 52/54] fix: squirrel: flatten only a single tuple-typed
 argument of a symbol

---
 .../src/squirrel/converters/top_level_converter.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs b/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
index 375d69a..d44fb9d 100644
--- a/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
+++ b/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
@@ -371,8 +371,8 @@ fn mk_funs_and_names<'a, 'b>(
                 trace!("converting {symb} with sort {sort}");
                 // let args: Vec<_> = args.iter().map(|arg| arg.convert(ctx)).try_collect()?;
                 let args: Vec<_> = {
-                    let args = match args.last() {
-                        Some(json::Type::Tuple { elements }) => elements,
+                    let args = match args.as_slice() {
+                        [json::Type::Tuple { elements }] => elements,
                         _ => args,
                     };
                     args.iter().map(|arg| arg.convert(ctx)).try_collect()
-- 
2.43.0


From e190ab7229ecb65a2af68e6d438364e893665425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 53/54] fix: squirrel: derive the output location of each
 system from the requested one

---
 crates/cryptovampire/src/squirrel/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/mod.rs b/crates/cryptovampire/src/squirrel/mod.rs
index 57f2491..c75a9fb 100644
--- a/crates/cryptovampire/src/squirrel/mod.rs
+++ b/crates/cryptovampire/src/squirrel/mod.rs
@@ -22,6 +22,8 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
     };
     trace!("parsing successful");
 
+    let base_location = args.get_mut_output_location().cloned();
+
     trace!("converting to ast");
     convert_squirrel_dump(dump)?
         .into_iter()
@@ -38,9 +40,8 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
                 trace!("runnig the {i}th problem with ast:\n\t{ast}");
             }
 
-            match args.get_mut_output_location() {
-                None => (),
-                Some(location) => *location = location.join(format!("{i}")),
+            if let (Some(location), Some(base)) = (args.get_mut_output_location(), &base_location) {
+                *location = base.join(format!("{i}"));
             }
             run_from_ast(&args, ast)
         })
-- 
2.43.0


From eb4128d1a094ced5809057f6d499fcc3749bba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 54/54] fix: unification of repeated variables (endless
 recursion, missed unifiers)

---
 .../src/formula/manipulation/unifier.rs       | 81 ++++++++++---------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/crates/cryptovampire/src/formula/manipulation/unifier.rs b/crates/cryptovampire/src/formula/manipulation/unifier.rs
index 1104dcb..7fdd702 100644
--- a/crates/cryptovampire/src/formula/manipulation/unifier.rs
+++ b/crates/cryptovampire/src/formula/manipulation/unifier.rs
@@ -119,54 +119,59 @@ impl<'bump> Unifier<'bump> {
     }
 
     pub fn mgu(left: &ARichFormula<'bump>, right: &ARichFormula<'bump>) -> Option<Self> {
+        /// the term `t` stands for, given what the variables are already mapped to
+        fn resolve<'bump>(
+            t: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> ARichFormula<'bump> {
+            let mut t = t.shallow_copy();
+            while let RichFormula::Var(v) = t.as_ref() {
+                match left_p.maybe_get(v.id).or_else(|| right_p.maybe_get(v.id)) {
+                    Some(nt) => t = nt.shallow_copy(),
+                    None => break,
+                }
+            }
+            t
+        }
+
+        fn occurs<'bump>(
+            id: uvar,
+            t: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> bool {
+            match resolve(t, left_p, right_p).as_ref() {
+                RichFormula::Var(v) => v.id == id,
+                RichFormula::Fun(_, args) => {
+                    args.iter().any(|arg| occurs(id, arg, left_p, right_p))
+                }
+                RichFormula::Quantifier(_, arg) => occurs(id, arg, left_p, right_p),
+            }
+        }
+
         fn aux<'bump>(
             left: &ARichFormula<'bump>,
             right: &ARichFormula<'bump>,
             left_p: &mut MulitpleVarSubstF<'bump>,
             right_p: &mut MulitpleVarSubstF<'bump>,
         ) -> bool {
-            match (left.as_ref(), right.as_ref()) {
-                (RichFormula::Var(vl), RichFormula::Var(vr)) if vl == vr => true,
-                (RichFormula::Var(v), _) => match left_p.maybe_get(v.id).cloned() {
-                    Some(nl) if nl.is_var() => match (nl.as_ref(), right.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = right_p.maybe_get_as_rf(v3.id) {
-                                    nl.as_ref() == r
-                                } else {
-                                    right_p.add(v3.id, nl.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
-                    None => {
-                        left_p.add(v.id, right.shallow_copy());
+            let nleft = resolve(left, left_p, right_p);
+            let nright = resolve(right, left_p, right_p);
+            match (nleft.as_ref(), nright.as_ref()) {
+                (RichFormula::Var(vl), RichFormula::Var(vr)) if vl.id == vr.id => true,
+                (RichFormula::Var(v), _) => {
+                    !occurs(v.id, &nright, left_p, right_p) && {
+                        left_p.add(v.id, nright.shallow_copy());
                         true
                     }
-                },
-                (_, RichFormula::Var(v)) => match right_p.maybe_get(v.id).cloned() {
-                    Some(nr) if nr.is_var() => match (nr.as_ref(), left.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = left_p.maybe_get(v3.id) {
-                                    &nr == r
-                                } else {
-                                    left_p.add(v3.id, nr.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
-                    None => {
-                        right_p.add(v.id, left.shallow_copy());
+                }
+                (_, RichFormula::Var(v)) => {
+                    !occurs(v.id, &nleft, left_p, right_p) && {
+                        right_p.add(v.id, nleft.shallow_copy());
                         true
                     }
-                },
+                }
                 (RichFormula::Fun(fl, args_l), RichFormula::Fun(fr, args_r))
                     if fl == fr && args_l.len() == args_r.len() =>
                 {
-- 
2.43.0

