From 205be120ed2c8b5842c615c2cbdcde2cb6cf99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 01/98] fix: greedy resolution must not let a clause eliminate
 its own pivots

A tautological premise such as (cl p (not p)) eliminated the pivot it had
just introduced, and a pivot introduced again after being eliminated was
considered still eliminated, so the empty clause could be derived from
satisfiable premises.
---
 carcara/src/resolution.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..a871f11 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,10 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // The pivots introduced by this clause can only be eliminated by the clauses that come after
+        // it. Otherwise, a tautological clause like `(cl p (not p))` would eliminate its own pivot.
+        let mut clause_pivots = Vec::new();
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +170,14 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                clause_pivots.push((n, inner));
             }
         }
+        // We insert `false`, to indicate that these pivots were not yet eliminated. If a pivot had
+        // already been eliminated, this clause introduces it again, and so it must be eliminated
+        // again
+        pivots.extend(clause_pivots.into_iter().map(|p| (p, false)));
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From e0464d9a3ec2b098ae35893094b35d6272fd2a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 02/98] fix: drat must not conclude a clause that was only
 added by RAT

RAT additions preserve satisfiability but are not consequences of the
premises, so any clause over a fresh atom could be 'proved' by drat.
---
 carcara/src/drup.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 052267f..9be6c0a 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -40,6 +40,8 @@ pub enum DrupFormatError {
     CheckingRatInEmptyClause,
     #[error("the clause isn't in RAT format")]
     NotInRatFormat,
+    #[error("a proof that uses RAT can only conclude the empty clause")]
+    NonEmptyRatConclusion,
 }
 
 pub fn hash_term<T: Borrow<Rc<Term>>>(pool: &mut dyn TermPool, term: T) -> u64 {
@@ -234,6 +236,7 @@ pub fn check_drup(
         .collect();
 
     let mut drup_history: DRupStory = vec![];
+    let mut used_rat = false;
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
             let clause_term = if terms.is_empty() {
@@ -250,6 +253,7 @@ pub fn check_drup(
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
+            used_rat |= unit_history.is_some();
         }
 
         if unit_history.is_none() {
@@ -276,10 +280,18 @@ pub fn check_drup(
         premises.insert(hash_term(pool, t), terms_indexed_set);
     }
 
-    if !premises.contains_key(&hash_term(pool, conclusion)) {
+    if !premises.contains_key(&hash_term(pool, &conclusion)) {
         return Err(DrupFormatError::NoConclusionInPremise);
     }
 
+    // A clause in RAT is not implied by the premises: adding it only preserves their satisfiability.
+    // Therefore, after such an addition, the only conclusion that follows from the premises is the
+    // empty clause
+    let is_empty_clause = match_term!((cl ...) = &conclusion).is_some_and(|c| c.is_empty());
+    if used_rat && !is_empty_clause {
+        return Err(DrupFormatError::NonEmptyRatConclusion);
+    }
+
     Ok(drup_history)
 }
 
-- 
2.43.0


From 0d1a1a59aeb7600d3dddc4fe051c4d12d09e3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 03/98] fix: aci_simp must only remove duplicates under
 idempotent operators

---
 carcara/src/checker/rules/simplification.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..abf16f6 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Among the operators considered in aci_simp, those for which `(op x x)` is equivalent to `x`
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -859,9 +867,9 @@ fn apply_aci_simp(
         return t.clone();
     }
     let result = match term.as_ref() {
-        // flatten and remove duplicate on the result
+        // flatten and, if the operator is idempotent, remove duplicates on the result
         Term::Op(opp, args) if *opp == op => {
-            let args: Vec<_> = args
+            let mut args: Vec<_> = args
                 .iter()
                 .flat_map(|term| {
                     let term = apply_aci_simp(pool, cache, term, op, identity);
@@ -870,9 +878,11 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
+            if is_idempotent(op) {
+                args = args.into_iter().dedup().collect();
+            }
             if args.len() == 1 {
                 args[0].clone()
             } else {
-- 
2.43.0


From 320f5547af695f5579677d25c8076864088d07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 04/98] fix: alpha-equivalence ignored extra bindings and
 scoped let values wrongly

Binding lists of different lengths were compared up to the shortest one, so
(forall ((x U)) phi) was considered equivalent to (forall ((x U) (y U)) phi).
The values of a let were compared with the earlier variables of the same let in
scope, though let bindings are simultaneous.
---
 carcara/src/ast/polyeq.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..8d755c2 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -201,26 +201,29 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
-        if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
-            // First, we push new scopes into the De Bruijn map and the cache stack
-            de_bruijn_map.push();
-            self.cache.push_scope();
-
-            // Then, we check that the binding lists and the inner terms are equivalent
+        if self.de_bruijn_map.is_some() {
+            // First, we check that the binding lists have the same length, and that the sorts (or
+            // values, in the case of `let` terms) they contain are equivalent. Since the variables
+            // in the lists are not in scope there, this must be done before they are bound
+            if a_binds.len() != b_binds.len() {
+                return false;
+            }
             for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
                 if !self.eq(&a_var.1, &b_var.1) {
-                    // We must remember to pop the frames from the De Bruijn map and cache stack
-                    // here, so as not to leave them in a corrupted state
-                    self.de_bruijn_map.as_mut().unwrap().pop();
-                    self.cache.pop_scope();
                     return false;
                 }
-                // We also insert each variable in the binding lists into the De Bruijn map
-                self.de_bruijn_map
-                    .as_mut()
-                    .unwrap()
-                    .insert(a_var.0.clone(), b_var.0.clone());
             }
+
+            // Then, we push new scopes into the De Bruijn map and the cache stack, and insert each
+            // variable in the binding lists into the De Bruijn map
+            let de_bruijn_map = self.de_bruijn_map.as_mut().unwrap();
+            de_bruijn_map.push();
+            self.cache.push_scope();
+            for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
+                de_bruijn_map.insert(a_var.0.clone(), b_var.0.clone());
+            }
+
+            // After that, we check that the inner terms are equivalent
             let result = self.eq(a_inner, b_inner);
 
             // Finally, we pop the scopes we pushed
-- 
2.43.0


From fb9142047f151cbcf4cc4481a749ef120d875d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 05/98] fix: alpha-equivalence cache was reused inside binders
 that shadow its variables

---
 carcara/src/ast/polyeq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 8d755c2..ff4aa90 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -483,7 +483,12 @@ impl PolyeqComparable for Rc<Term> {
         }
 
         // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        //
+        // Only the innermost scope can be used: if the terms were found to be equal outside of the
+        // current binder, they might not be equal inside it, as it may shadow their variables
+        let depth = comp.cache.height() - 1;
+        if matches!(comp.cache.get_with_depth(&(a.clone(), b.clone())), Some((d, ())) if d == depth)
+        {
             return true;
         }
 
-- 
2.43.0


From cad5b64c4f718bec1dab145820a902a4f21af4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 06/98] fix: unary minus was considered equal to its argument
 modulo n-ary expansion

An assume command could match the premise (< x 0) with (< (- x) 0).
---
 carcara/src/ast/polyeq.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index ff4aa90..c65d975 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -545,6 +545,8 @@ impl PolyeqComparable for Term {
                 if comp.is_mod_nary
                     && args.len() == 1
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
+                    // `-` with a single argument is the unary negation
+                    && *op != Operator::Sub
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
                     && (args[0].as_ref() == other || comp.eq(args[0].as_ref(), other)) =>
-- 
2.43.0


From dfcc9325fc879392cf4cd20cee298a5440993cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 07/98] fix: qnt_cnf could capture variables that are free in
 the original term

---
 carcara/src/checker/rules/quantifier.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..9e0538f 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -259,8 +259,9 @@ fn conjunctive_normal_form(term: &Rc<Term>) -> CnfFormula {
 pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
 
-    let (l_bindings, phi, r_bindings, phi_prime) = {
+    let (left, l_bindings, phi, r_bindings, phi_prime) = {
         let (l, r) = match_term_err!((or (not l) r) = &conclusion[0])?;
+        let left = l;
         let (l_q, l_b, phi) = l.as_quant_err()?;
         let (r_q, r_b, phi_prime) = r.as_quant_err()?;
 
@@ -268,7 +269,7 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         assert_is_expected(&l_q, Binder::Forall)?;
         assert_is_expected(&r_q, Binder::Forall)?;
 
-        (l_b, phi, r_b, phi_prime)
+        (left, l_b, phi, r_b, phi_prime)
     };
 
     let r_bindings = r_bindings.iter().cloned().collect::<IndexSet<_>>();
@@ -294,6 +295,17 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         )));
     }
 
+    // The variables that are free in the original term must not be captured by the right side
+    let left_free_vars = pool.free_vars(left);
+    let captured = r_bindings
+        .iter()
+        .find(|&var| left_free_vars.contains(&pool.add(var.clone().into())));
+    if let Some((var, _)) = captured {
+        return Err(CheckerError::Quant(QuantifierError::NewBindingIntroduced(
+            var.clone(),
+        )));
+    }
+
     let selected_clause = clauses
         .iter()
         .find(|&clause| clause == phi_prime)
-- 
2.43.0


From 124d7799f6587325fcf71b288eb63fbd80af6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 08/98] fix: removing a mapping from a substitution must
 invalidate its cache

A context that rebinds a variable mapped by an outer context would keep using
results that were computed with the outer mapping.
---
 carcara/src/ast/substitution.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..ded6774 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -132,12 +132,13 @@ impl Substitution {
 
     /// Removes a mapping from the substitution.
     ///
-    /// This will clear `self.should_be_renamed`, such that it might need to be recomputed later.
-    /// Therefore, you should avoid using this method if possible.
+    /// This will clear `self.should_be_renamed` and the cache, such that they might need to be
+    /// recomputed later. Therefore, you should avoid using this method if possible.
     pub(super) fn remove(&mut self, x: &Rc<Term>) {
         let was_present = self.map.swap_remove(x).is_some();
         if was_present {
             self.should_be_renamed = None;
+            self.cache.clear();
         }
     }
 
-- 
2.43.0


From 996661fe1ca2edc55b74d0765399b06126007390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 09/98] fix: substitution could capture variables when
 renaming, and ignored let values

The new name given to a bound variable could be the name of a variable that is
free in the body or that appears earlier in the binding list. The values in a let
term were not substituted, and applying a substitution to a let term before any
other binder would panic.
---
 carcara/src/ast/substitution.rs | 51 ++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index ded6774..ffde96b 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -214,8 +214,19 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, binding_list, inner, true);
+
+                // `let` bindings are simultaneous, so the variables they introduce are not in scope
+                // in the values
+                let new_bindings = BindingList(
+                    new_bindings
+                        .0
+                        .into_iter()
+                        .map(|(var, value)| (var, self.apply(pool, &value)))
+                        .collect(),
+                );
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -319,7 +330,8 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) =
+            self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -341,10 +353,30 @@ impl Substitution {
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
+        let should_be_renamed = self.should_be_renamed.as_ref().unwrap();
+        if !binding_list
+            .iter()
+            .any(|(var, _)| should_be_renamed.contains(var))
+        {
+            return (BindingList(binding_list.to_vec()), Self::empty());
+        }
+
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        // A new name must not be one of the names that appear free in the inner term, otherwise the
+        // renaming itself would introduce a capture. The variables in the binding list are not a
+        // problem, as they are renamed if necessary
+        let inner_free_vars: IndexSet<_> = pool
+            .free_vars(inner)
+            .into_iter()
+            .map(|v| v.as_var().unwrap().to_owned())
+            .filter(|name| binding_list.iter().all(|(var, _)| var != name))
+            .collect();
+
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -362,7 +394,8 @@ impl Substitution {
                 // We keep adding `'`s to the variable name as long as it is necessary
                 loop {
                     if !new_vars.contains(&new_var)
-                        && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
+                        && !(changed && inner_free_vars.contains(&new_var))
+                        && !should_be_renamed.contains(&new_var)
                     {
                         break;
                     }
@@ -379,17 +412,9 @@ impl Substitution {
                     // We can safely unwrap here because `old` and `new` are guaranteed to have the
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
-                    new_vars.insert(new_var.clone());
                 }
-
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
-                let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
-                } else {
-                    value.clone()
-                };
-                (new_var, new_value)
+                new_vars.insert(new_var.clone());
+                (new_var, value.clone())
             })
             .collect();
         (BindingList(new_binding_list), new_substitution)
-- 
2.43.0


From 9bda0cf695d314bf297a80dc9cd75392322a5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 10/98] fix: the free variables of a let term include those of
 its values

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..ce9302a 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The values are outside the scope of the variables
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From be5fa1bd958f25ab055298bd0625ae25d9572215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 11/98] fix: a context variable could be confused with a
 shadowed one of the same name

When an inner anchor rebinds x, the values introduced by the outer contexts still
refer to the outer x, so y -> x followed by a rebinding of x must not map y to the
inner x.
---
 carcara/src/ast/context.rs      |  9 +++++++++
 carcara/src/ast/substitution.rs | 25 +++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..654f506 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -180,6 +180,15 @@ impl ContextStack {
                     AnchorArg::Variable((name, sort)) => {
                         let var_term = pool.add(Term::new_var(name, sort.clone()));
                         substitution.remove(&var_term);
+
+                        // If the values introduced by the previous contexts mention a variable with
+                        // this name, that variable is now shadowed. We give it a name that can't
+                        // appear in a proof, because quoted symbols can't contain `|`
+                        if i > 0 {
+                            let shadowed = Term::new_var(format!("{name}|{i}"), sort.clone());
+                            let shadowed = pool.add(shadowed);
+                            substitution.rename_in_values(pool, &var_term, &shadowed);
+                        }
                     }
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index ffde96b..68a693e 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -142,6 +142,31 @@ impl Substitution {
         }
     }
 
+    /// Renames every free occurrence of `x` in the values of the substitution to `new`.
+    ///
+    /// This is used when `x` is shadowed by a new variable with the same name, as the values still
+    /// refer to the old one. Like [`Substitution::remove`], this clears the computed caches.
+    pub(super) fn rename_in_values(
+        &mut self,
+        pool: &mut dyn TermPool,
+        x: &Rc<Term>,
+        new: &Rc<Term>,
+    ) {
+        let mut changed = false;
+        for value in self.map.values_mut() {
+            if pool.free_vars(value).contains(x) {
+                // We can safely unwrap here because `x` and `new` are variables of the same sort
+                let mut renaming = Self::single(pool, x.clone(), new.clone()).unwrap();
+                *value = renaming.apply(pool, value);
+                changed = true;
+            }
+        }
+        if changed {
+            self.should_be_renamed = None;
+            self.cache.clear();
+        }
+    }
+
     /// Computes which binder variables will need to be renamed, and stores the result in
     /// `self.should_be_renamed`.
     fn compute_should_be_renamed(&mut self, pool: &mut dyn TermPool) {
-- 
2.43.0


From 0d8c7d70ee35a15d8db8211896be0194c2bbd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 12/98] fix: variables introduced by an anchor could be
 confused with outer ones of the same name

---
 carcara/src/ast/context.rs    | 29 ++++++++++++++++
 carcara/src/checker/error.rs  |  9 +++++
 carcara/src/checker/shared.rs | 63 +++++++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 654f506..cc9da1b 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -89,6 +89,35 @@ impl ContextStack {
             .map(|id| self.context_vec[*id].1.write().unwrap())
     }
 
+    /// Returns the variables introduced by the arguments of each context in the stack, starting from
+    /// the `from`-th one.
+    pub fn introduced_vars(&self, pool: &mut dyn TermPool, from: usize) -> Vec<Rc<Term>> {
+        let mut result = Vec::new();
+        for id in self.stack.iter().skip(from) {
+            let guard = self.context_vec[*id].1.read().unwrap();
+            for arg in guard.iter().flat_map(|c| &c.args) {
+                let (AnchorArg::Variable(var) | AnchorArg::Assign(var, _)) = arg;
+                result.push(pool.add(var.clone().into()));
+            }
+        }
+        result
+    }
+
+    /// Returns the variables that are assigned a value in the last context in the stack.
+    pub fn last_assigned_vars(&self, pool: &mut dyn TermPool) -> Vec<Rc<Term>> {
+        let Some(guard) = self.last() else {
+            return Vec::new();
+        };
+        guard
+            .iter()
+            .flat_map(|c| &c.args)
+            .filter_map(|arg| match arg {
+                AnchorArg::Assign(var, _) => Some(pool.add(var.clone().into())),
+                AnchorArg::Variable(_) => None,
+            })
+            .collect()
+    }
+
     /// A function used to force the creation of a new context at the end of the
     /// `context_vec`. This function should be called before a
     /// `ContextStack::push` in a single thread operation. Since a single
diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..77e8b4b 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -387,6 +387,15 @@ pub enum SubproofError {
     #[error("only the `subproof` rule may discharge local assumptions")]
     DischargeInWrongRule,
 
+    #[error("rule can't be used to end a subproof whose anchor assigns variables")]
+    ContextInWrongRule,
+
+    #[error("variable '{0}', assigned in the context, appears free in the conclusion")]
+    ContextVarInConclusion(String),
+
+    #[error("variable '{0}', introduced in the context, appears free in premise '{1}'")]
+    ContextVarInPremise(String, String),
+
     #[error("binding '{0}' appears as free variable in phi")]
     BindBindingIsFreeVarInPhi(String),
 
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..3e02724 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -126,6 +126,9 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    let mut rule_args = rule_args;
+    check_context_vars(step, &mut rule_args, context.is_end_step)?;
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +147,66 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// Checks that the variables introduced by the arguments of an anchor do not escape their scope.
+///
+/// Inside a subproof, these variables shadow any variable or constant of the same name, so a premise
+/// from outside of the subproof can't refer to them. Similarly, the variables that are assigned a
+/// value can't appear in the conclusion of the step that ends the subproof.
+fn check_context_vars(step: &ProofStep, args: &mut RuleArgs, is_end_step: bool) -> RuleResult {
+    use crate::checker::error::SubproofError;
+
+    let depth = args.context.len();
+    let assigned = if is_end_step {
+        args.context.last_assigned_vars(args.pool)
+    } else {
+        Vec::new()
+    };
+
+    if !assigned.is_empty() {
+        match step.rule.as_str() {
+            "bind" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "hole" => (),
+            _ => return Err(SubproofError::ContextInWrongRule.into()),
+        }
+        for term in args.conclusion {
+            if let Some(name) = find_free(args.pool, &assigned, term) {
+                return Err(SubproofError::ContextVarInConclusion(name).into());
+            }
+        }
+    }
+
+    for premise in args.premises {
+        let premise_depth = premise.index.0;
+        let introduced = if premise_depth == depth {
+            assigned.clone()
+        } else {
+            let mut vars = args.context.introduced_vars(args.pool, premise_depth);
+            if is_end_step {
+                // The step that ends a subproof is not in the scope of its anchor
+                let own = args.context.introduced_vars(args.pool, depth - 1).len();
+                vars.truncate(vars.len() - own);
+            }
+            vars
+        };
+        for term in premise.clause {
+            if let Some(name) = find_free(args.pool, &introduced, term) {
+                let id = premise.id.to_owned();
+                return Err(SubproofError::ContextVarInPremise(name, id).into());
+            }
+        }
+    }
+    Ok(())
+}
+
+/// Returns the name of one of the `introduced` variables that is free in `term`, if there is one.
+fn find_free(pool: &mut dyn TermPool, introduced: &[Rc<Term>], term: &Rc<Term>) -> Option<String> {
+    if introduced.is_empty() {
+        return None;
+    }
+    let free_vars = pool.free_vars(term);
+    let var = introduced.iter().find(|&v| free_vars.contains(v))?;
+    var.as_var().map(str::to_owned)
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From ad75291ef407e00a886776f45deb867eee05c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 13/98] fix: bind_let must not confuse let variables with outer
 ones

---
 carcara/src/checker/rules/extras.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..3cd72ea 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -6,7 +6,10 @@ use super::{
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, SubproofError},
+        rules::assert_operation_len,
+    },
     utils::{MultiSet, MultiSetDifference},
 };
 
@@ -114,6 +117,8 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
@@ -153,7 +158,21 @@ pub fn bind_let(
     }
 
     assert_eq(left, phi)?;
-    assert_eq(right, phi_prime)
+    assert_eq(right, phi_prime)?;
+
+    // The variables bound by the `let`s must also be variables in the subproof
+    let context = context.last().unwrap();
+    let context_args = &context.as_ref().unwrap().args;
+    for (name, value) in l_bindings.iter().chain(r_bindings) {
+        let var = (name.clone(), pool.sort(value));
+        if !context_args.contains(&AnchorArg::Variable(var.clone())) {
+            let var = pool.add(var.into());
+            if pool.free_vars(phi).contains(&var) || pool.free_vars(phi_prime).contains(&var) {
+                return Err(SubproofError::BindingIsNotInContext(name.clone()).into());
+            }
+        }
+    }
+    Ok(())
 }
 
 pub fn la_mult_pos(args: RuleArgs) -> RuleResult {
-- 
2.43.0


From 4e5258dad21d2021f1c810072377d09cfc824e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 14/98] fix: bind and let must check that the context maps the
 right variables

---
 carcara/src/checker/error.rs          |  3 ++
 carcara/src/checker/rules/subproof.rs | 56 ++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 77e8b4b..bde0b77 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -396,6 +396,9 @@ pub enum SubproofError {
     #[error("variable '{0}', introduced in the context, appears free in premise '{1}'")]
     ContextVarInPremise(String, String),
 
+    #[error("binding '{0}' can't be mapped to '{1}'")]
+    BindInvalidMapping(String, Rc<Term>),
+
     #[error("binding '{0}' appears as free variable in phi")]
     BindBindingIsFreeVarInPhi(String),
 
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..c020613 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -93,8 +93,8 @@ pub fn bind(
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
 
-    let (xs, ys): (IndexSet<_>, IndexSet<_>) = {
-        let (mut xs, mut ys) = (IndexSet::new(), IndexSet::new());
+    let (xs, ys): (IndexMap<_, _>, IndexSet<_>) = {
+        let (mut xs, mut ys) = (IndexMap::new(), IndexSet::new());
         for arg in &context.args {
             match arg {
                 AnchorArg::Variable((name, _)) if !xs.is_empty() => {
@@ -103,8 +103,8 @@ pub fn bind(
                 AnchorArg::Variable(var) => {
                     ys.insert(pool.add(var.clone().into()));
                 }
-                AnchorArg::Assign(var, _) => {
-                    xs.insert(pool.add(var.clone().into()));
+                AnchorArg::Assign(var, value) => {
+                    xs.insert(pool.add(var.clone().into()), value.clone());
                 }
             }
         }
@@ -116,17 +116,37 @@ pub fn bind(
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
+    // Each variable in the left side must be mapped to a different variable in the right side
+    let mut mapping = IndexMap::new();
+    for x in &l_bindings {
+        let name = x.as_var().unwrap();
+        let y = match xs.get(x) {
+            Some(y) => y,
+            None if r_bindings.contains(x) => x,
+            None => return Err(SubproofError::BindingIsNotInContext(name.to_owned()).into()),
+        };
+        let is_valid = x == y || (!l_bindings.contains(y) && !r_bindings.contains(x));
+        if !is_valid || !r_bindings.contains(y) || mapping.insert(y, x).is_some() {
+            return Err(SubproofError::BindInvalidMapping(name.to_owned(), y.clone()).into());
+        }
+    }
 
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
-        let x = x.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindingIsNotInContext(x).into());
+    // For binders that are not quantifiers, the order of the bindings is also important
+    if l_binder != Binder::Forall && l_binder != Binder::Exists {
+        for (x, y) in l_bindings.iter().zip(&r_bindings) {
+            if mapping[y] != x {
+                let name = x.as_var().unwrap().to_owned();
+                return Err(SubproofError::BindInvalidMapping(name, y.clone()).into());
+            }
+        }
     }
-    if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
+
+    // The variables in the right side must be variables in the context
+    let r_free_vars = pool.free_vars(phi_prime).clone();
+    if let Some(y) = r_bindings
+        .iter()
+        .find(|&y| !ys.contains(y) && (free_vars.contains(y) || r_free_vars.contains(y)))
+    {
         let y = y.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(y).into());
     }
@@ -188,6 +208,16 @@ pub fn r#let(
             Ok((s, t))
         })
         .collect::<Result<_, CheckerError>>()?;
+
+    // The values in the context are outside of the scope of the variables being bound
+    for (s, _) in &pairs {
+        let free_vars = pool.free_vars(s);
+        if let Some(x) = mappings.keys().find(|&x| free_vars.contains(x)) {
+            let x = x.as_var().unwrap().to_owned();
+            return Err(SubproofError::ContextVarInConclusion(x).into());
+        }
+    }
+
     pairs.retain(|(s, t)| s != t); // The pairs where s == t don't need a premise to justify them
 
     assert_num_premises(premises, pairs.len())?;
-- 
2.43.0


From 76266dfac67734ab2cc97a2c5255a3f77a844a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 15/98] fix: onepoint could use points that depend on variables
 bound inside the quantifier

---
 carcara/src/checker/rules/subproof.rs | 34 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index c020613..0997547 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -235,8 +235,13 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
+fn extract_points(
+    pool: &mut dyn TermPool,
+    quant: Binder,
+    term: &Rc<Term>,
+) -> HashSet<(String, Rc<Term>)> {
     fn find_points(
+        pool: &mut dyn TermPool,
         acc: &mut HashSet<(String, Rc<Term>)>,
         seen: &mut HashSet<(Rc<Term>, bool)>,
         polarity: bool,
@@ -249,10 +254,19 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
         seen.insert(key);
 
         if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
+            return find_points(pool, acc, seen, !polarity, inner);
         }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+        if let Some((_, bindings, inner)) = term.as_quant() {
+            // The points found inside this quantifier can't use the variables that it binds
+            let (mut inner_acc, mut inner_seen) = (HashSet::new(), HashSet::new());
+            find_points(pool, &mut inner_acc, &mut inner_seen, polarity, inner);
+            acc.extend(inner_acc.into_iter().filter(|(x, t)| {
+                let free_vars = pool.free_vars(t);
+                bindings
+                    .iter()
+                    .all(|var| var.0 != *x && !free_vars.iter().any(|v| v.as_var() == Some(&var.0)))
+            }));
+            return;
         }
         match polarity {
             true => {
@@ -265,17 +279,17 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
                     }
                 } else if let Some(args) = match_term!((and ...) = term) {
                     for a in args {
-                        find_points(acc, seen, true, a);
+                        find_points(pool, acc, seen, true, a);
                     }
                 }
             }
             false => {
                 if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
+                    find_points(pool, acc, seen, true, p);
+                    find_points(pool, acc, seen, false, q);
                 } else if let Some(args) = match_term!((or ...) = term) {
                     for a in args {
-                        find_points(acc, seen, false, a);
+                        find_points(pool, acc, seen, false, a);
                     }
                 }
             }
@@ -284,7 +298,7 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
 
     let mut result = HashSet::new();
     let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
+    find_points(pool, &mut result, &mut seen, quant == Binder::Exists, term);
     result
 }
 
@@ -323,7 +337,7 @@ pub fn onepoint(
         }
     );
 
-    let points = extract_points(quant, left);
+    let points = extract_points(pool, quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
     // substitution to the points in order to replace these variables by their value.
-- 
2.43.0


From bbd9e09e8a8e46fe1536c02fd8661e49311d261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 16/98] fix: parallel checker missed the empty clause when it
 ends a subproof

---
 carcara/src/checker/parallel/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..016a4fb 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,10 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // A step that ends a subproof is in the outer depth, but its context is only
+                    // popped off of the stack when the next command is reached
+                    let depth = self.context.len() - iter.is_end_step() as usize;
+                    if step.clause.is_empty() && depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
-- 
2.43.0


From 7e3104cf06b9f30c60e41db927fb4cf582512807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 17/98] fix: numerical constants were considered equal to terms
 with a different value

---
 carcara/src/ast/polyeq.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index c65d975..3636269 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -563,37 +563,53 @@ impl PolyeqComparable for Term {
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
                 comp.compare_binder(binds_a, binds_b, a, b)
             }
-            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
+            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args))
+                if args.len() == 2 =>
+            {
                 // if a is a rational and b a division literal, check
                 // if they are the same
                 match (args[0].as_ref(), args[1].as_ref()) {
                     (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
+                        if r1.is_integer() && r2.is_integer() && !r2.is_zero() =>
                     {
                         Rational::from((r1.numer(), r2.numer())) == r.clone()
                     }
                     _ => false,
                 }
             }
-            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
+            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r)))
+                if args.len() == 2 =>
+            {
                 // if a is a rational and b a division literal, check
                 // if they are the same
                 match (args[0].as_ref(), args[1].as_ref()) {
                     (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
+                        if r.is_positive()
+                            && r1.is_integer()
+                            && r2.is_integer()
+                            && !r2.is_zero() =>
                     {
                         Rational::from((r1.numer(), r2.numer())) == r.clone()
                     }
                     (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
+                        if r.is_negative() && args.len() == 1 && !r2.is_zero() =>
                     {
                         if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
-                            Rational::from((r1, r2)) == r.clone().abs()
+                            -Rational::from((r1, r2)) == r.clone()
                         } else {
                             false
                         }
                     }
+                    (Term::Const(Constant::Integer(r1)), Term::Op(Operator::Sub, args))
+                        if r.is_negative() && args.len() == 1 =>
+                    {
+                        match args[0].as_ref() {
+                            Term::Const(Constant::Integer(r2)) if !r2.is_zero() => {
+                                -Rational::from((r1, r2)) == r.clone()
+                            }
+                            _ => false,
+                        }
+                    }
                     _ => false,
                 }
             }
@@ -604,7 +620,7 @@ impl PolyeqComparable for Term {
                 if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
                     i1.clone().abs() == i2.clone()
                 } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
+                    r2.is_integer() && i1.clone().abs() == r2.numer().clone()
                 } else {
                     false
                 }
@@ -614,10 +630,10 @@ impl PolyeqComparable for Term {
                 if r.is_negative() && args.len() == 1 =>
             {
                 match args[0].as_ref() {
-                    Term::Op(Operator::RealDiv, sub_args) => {
+                    Term::Op(Operator::RealDiv, sub_args) if sub_args.len() == 2 => {
                         match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
                             (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
+                                if r1.is_integer() && r2.is_integer() && !r2.is_zero() =>
                             {
                                 Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
                             }
-- 
2.43.0


From ab8b485bdd69b2a3180b133c11c443bfa1546a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 18/98] fix: unary minus was flattened when comparing terms
 modulo n-ary expansion

---
 carcara/src/ast/polyeq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 3636269..55f274b 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -314,7 +314,8 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            // `-` with a single argument is the unary negation
+            if term_op == op && !(op == Operator::Sub && args.len() == 1) {
                 Some(args)
             } else {
                 None
-- 
2.43.0


From 9adcd1ecc6795ff616f3d7fa9f031bfb5629b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 19/98] fix: let bound variables shadow function definitions,
 and do not capture variables when expanding them

---
 carcara/src/parser/error.rs |  5 +++
 carcara/src/parser/mod.rs   | 61 +++++++++++++++++++++++++++++++++----
 2 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 1fd03ac..60f91ac 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -81,6 +81,11 @@ pub enum ParserError {
     #[error("identifier '{0}' is not defined")]
     UndefinedIden(String),
 
+    /// The body of a function definition refers to a variable that is shadowed where the function is
+    /// used.
+    #[error("variable '{0}', used in the definition of '{1}', is shadowed in this scope")]
+    ShadowedVarInDefinition(String, String),
+
     /// The parser encountered a sort that was not defined.
     #[error("sort '{0}' is not defined")]
     UndefinedSort(String),
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..4bcf7fa 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -104,6 +104,10 @@ pub fn parse_instance_with_pool<T: BufRead>(
 struct FunctionDef {
     params: Vec<SortedVar>,
     body: Rc<Term>,
+
+    /// How many scopes were open where the function was defined. This is `None` for the names given
+    /// to terms inside of a proof, which stand for the literal text of the term.
+    depth: Option<usize>,
 }
 
 impl FunctionDef {
@@ -222,6 +226,50 @@ impl<'a, R: BufRead> Parser<'a, R> {
         &mut self.problem.as_mut().unwrap().premises
     }
 
+    /// Returns the function definition that `name` refers to, if there is one.
+    ///
+    /// Function definitions are global, so a variable of the same name that is bound in an inner scope
+    /// (by a binder, a `let`, an anchor, or as a function parameter) shadows them.
+    fn get_function_def(&self, name: &str) -> Option<&FunctionDef> {
+        let func = self.state.function_defs.get(name)?;
+        let key = HashCache::new(name.to_owned());
+        match self.state.symbol_table.get_with_depth(&key) {
+            Some((depth, _)) if depth > 0 => None,
+            _ => Some(func),
+        }
+    }
+
+    /// Applies a function definition to the given arguments.
+    ///
+    /// Fails if the body of the definition refers to a variable that is shadowed in the current scope.
+    /// In that case, the variable would be captured, and refer to something else.
+    fn apply_function_def(
+        &mut self,
+        name: &str,
+        args: Vec<Rc<Term>>,
+    ) -> Result<Rc<Term>, ParserError> {
+        let func = self.state.function_defs.get(name).unwrap();
+        if let Some(depth) = func.depth.filter(|d| *d < self.state.symbol_table.height()) {
+            for var in self.pool.free_vars(&func.body) {
+                let Some(var) = var.as_var() else { continue };
+                if func.params.iter().any(|(param, _)| param == var) {
+                    continue;
+                }
+                let key = HashCache::new(var.to_owned());
+                match self.state.symbol_table.get_with_depth(&key) {
+                    Some((d, _)) if d >= depth => {
+                        return Err(ParserError::ShadowedVarInDefinition(
+                            var.to_owned(),
+                            name.to_owned(),
+                        ));
+                    }
+                    _ => (),
+                }
+            }
+        }
+        func.apply(self.pool, args)
+    }
+
     /// Constructs and sort checks a variable term.
     fn make_var(&mut self, iden: String) -> Result<Rc<Term>, ParserError> {
         let cached = HashCache::new(iden);
@@ -1212,7 +1260,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
         self.expect_token(Token::CloseParen)?;
 
-        Ok((name, FunctionDef { params, body }))
+        let depth = Some(self.state.symbol_table.height());
+        Ok((name, FunctionDef { params, body, depth }))
     }
 
     /// Adds the premise corresponding to a `define-fun-rec` function definition.
@@ -1334,8 +1383,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::String(s), _) => Term::new_string(s),
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
-                return if let Some(func) = self.state.function_defs.get(&s) {
-                    func.apply(self.pool, Vec::new())
+                return if self.get_function_def(&s).is_some() {
+                    self.apply_function_def(&s, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
                     let args = Vec::new();
@@ -1471,6 +1520,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let func_def = FunctionDef {
                             params: Vec::new(),
                             body: inner.clone(),
+                            depth: p.problem.is_some().then(|| p.state.symbol_table.height()),
                         };
                         p.state.function_defs.insert(name, func_def);
                         Ok(())
@@ -1780,13 +1830,12 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
                 Ok(result)
             }
-            Token::Symbol(s) if self.state.function_defs.get(s).is_some() => {
+            Token::Symbol(s) if self.get_function_def(s).is_some() => {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-                let func = self.state.function_defs.get(&func_name).unwrap();
 
-                func.apply(self.pool, args)
+                self.apply_function_def(&func_name, args)
                     .map_err(|err| Error::Parser(err, head_pos))
             }
             Token::OpenParen => {
-- 
2.43.0


From b37d044548d7516236cb21eca2b40dfbe0623886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 20/98] fix: do not drop the arguments of a division after the
 second one

---
 carcara/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 4bcf7fa..a67bd51 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -360,8 +360,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     SortError::assert_all_eq(&sorts)?;
                 }
 
-                if let Some(r) = self.interpret_div_as_real_lit(&args[0], &args[1]) {
-                    return Ok(r);
+                if let [a, b] = args.as_slice() {
+                    if let Some(r) = self.interpret_div_as_real_lit(a, b) {
+                        return Ok(r);
+                    }
                 }
             }
             Operator::Mod => {
-- 
2.43.0


From cfb3117fd54320da210da69001aa3274b07159d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 21/98] fix: reject assertions and checked assumptions that are
 not Boolean

---
 carcara/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index a67bd51..33a1354 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -837,13 +837,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.state.sort_defs.insert(name, def);
                 }
                 Token::ReservedWord(Reserved::Assert) => {
-                    let term = self.parse_term()?;
+                    let term = self.parse_term_expecting_sort(&Sort::Bool)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().insert(term);
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self.parse_sequence(Self::parse_term, true)?;
+                    let terms = self
+                        .parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
-- 
2.43.0


From 7f3429f32640bfecf670a7c64c39431b3c417f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 22/98] fix: do not crash when a worker is given only an anchor
 that it does not need

---
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..ba13a01 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    // The only command given to this schedule might have been an useless context
+                    // insertion, that was already removed
+                    let Some(last) = loads[*schedule_id].last() else {
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From f13e9819f3ef5db3fd5b7231898c2692257cec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 23/98] Add instrumentation points for verification, behind the
 verif-hooks feature

---
 carcara/Cargo.toml                  |  4 ++++
 carcara/src/ast/context.rs          |  3 +++
 carcara/src/checker/parallel/mod.rs |  6 ++++++
 carcara/src/lib.rs                  |  2 ++
 carcara/src/verif_hooks.rs          | 31 +++++++++++++++++++++++++++++
 5 files changed, 46 insertions(+)
 create mode 100644 carcara/src/verif_hooks.rs

diff --git a/carcara/Cargo.toml b/carcara/Cargo.toml
index c2fbc9f..953992e 100644
--- a/carcara/Cargo.toml
+++ b/carcara/Cargo.toml
@@ -12,6 +12,10 @@ edition = "2021"
 rust-version = "1.87"
 license = "Apache-2.0"
 
+[features]
+# Lets a test harness decide how the workers of the parallel checker interleave
+verif-hooks = []
+
 [dependencies]
 indexmap = "2.0.0"
 log = "0.4.20"
diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index cc9da1b..1345dec 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -164,6 +164,9 @@ impl ContextStack {
                 .checked_sub(1)
                 .expect("A thread tried to access a context not allocated for it.");
 
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::point("pop");
+
             if remaining_threads == 0 {
                 // Drop this context since the last thread stopped using it
                 *this_context.1.write().unwrap() = None;
diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 016a4fb..a7c5d8d 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -248,10 +248,16 @@ impl<'c> ParallelProofChecker<'c> {
     ) -> CarcaraResult<(bool, bool)> {
         use std::sync::atomic::Ordering;
 
+        #[cfg(feature = "verif-hooks")]
+        let _at_end = crate::verif_hooks::AtEnd("end");
+
         let mut iter = schedule.iter(&proof.commands[..]);
         let mut last_depth = 0;
 
         while let Some(command) = iter.next() {
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::point("command");
+
             // If there is any depth difference between the current and last step
             while (last_depth - iter.depth() as i64 > 0)
                 || (last_depth - iter.depth() as i64 == 0
diff --git a/carcara/src/lib.rs b/carcara/src/lib.rs
index 0ba29bd..42c7e19 100644
--- a/carcara/src/lib.rs
+++ b/carcara/src/lib.rs
@@ -44,6 +44,8 @@ mod rare;
 mod resolution;
 pub mod slice;
 mod utils;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 
 use crate::benchmarking::{CollectResults, OnlineBenchmarkResults, RunMeasurement};
 use checker::{error::CheckerError, CheckerStatistics};
diff --git a/carcara/src/verif_hooks.rs b/carcara/src/verif_hooks.rs
new file mode 100644
index 0000000..53710ed
--- /dev/null
+++ b/carcara/src/verif_hooks.rs
@@ -0,0 +1,31 @@
+//! Instrumentation points for verification harnesses. This module only exists when the `verif-hooks`
+//! feature is enabled, and does nothing until a harness installs a function.
+
+use std::sync::{Arc, RwLock};
+
+/// A function that receives the name of the point that the current thread has reached.
+pub type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;
+
+static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
+
+/// Installs or removes the function that is called at each point.
+pub fn install(hook: Option<Hook>) {
+    *HOOK.write().unwrap() = hook;
+}
+
+/// Marks a point in the execution of the current thread.
+pub fn point(name: &'static str) {
+    let hook = HOOK.read().unwrap().clone();
+    if let Some(hook) = hook {
+        hook(name);
+    }
+}
+
+/// Marks the point where it is dropped.
+pub struct AtEnd(pub &'static str);
+
+impl Drop for AtEnd {
+    fn drop(&mut self) {
+        point(self.0);
+    }
+}
-- 
2.43.0


From ae2e2c7d091330a2eb0eb95239794355763ad3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 24/98] fix: do not share substitutions, and the terms of a
 worker's own pool, between the workers of the parallel checker

---
 carcara/src/ast/context.rs | 74 +++++++++++---------------------------
 1 file changed, 21 insertions(+), 53 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 1345dec..c0d1927 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -4,14 +4,12 @@ use std::sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGu
 #[derive(Debug)]
 pub struct Context {
     pub args: Vec<AnchorArg>,
-    pub cumulative_substitution: Option<Substitution>,
 }
 
 impl Context {
-    /// Builds a new context form the arguments to an `anchor`. This does not initalize the
-    /// `cumulative_substitution` field.
+    /// Builds a new context form the arguments to an `anchor`.
     fn new(args: Vec<AnchorArg>) -> Self {
-        Self { args, cumulative_substitution: None }
+        Self { args }
     }
 }
 
@@ -34,7 +32,9 @@ pub struct ContextStack {
     context_vec: Arc<Vec<ContextInfo>>,
     /// The stack of contexts id (works just like a map to `context_vec`).
     stack: Vec<usize>,
-    num_cumulative_calculated: usize,
+    /// The cumulative substitutions of the first contexts in the stack. These are not shared
+    /// between the threads, because they contain terms that are in a thread's own term pool.
+    cumulative_substitutions: Vec<Substitution>,
 }
 
 impl ContextStack {
@@ -55,7 +55,7 @@ impl ContextStack {
         Self {
             context_vec,
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -65,7 +65,7 @@ impl ContextStack {
         Self {
             context_vec: self.context_vec.clone(),
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -174,35 +174,24 @@ impl ContextStack {
             this_context.0.store(remaining_threads, Ordering::Release);
         }
 
-        self.num_cumulative_calculated =
-            std::cmp::min(self.num_cumulative_calculated, self.stack.len());
+        self.cumulative_substitutions.truncate(self.stack.len());
     }
 
     fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
-        for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
-            // Requires read guard. Since the i-th context will be mutated far
-            // below this line, we first take the read guard here and then, when
-            // necessary, we require the write guard. This tries to avoid bigger
-            // overheads
+        for i in self.cumulative_substitutions.len()..std::cmp::max(up_to + 1, self.len()) {
+            // Waits until OS allows to read this context. The code structure makes sure that this
+            // context, when released for reading, will be already instantiated since there are
+            // only 2 cases:
+            //  - This thread was responsible for building this context. Then this context has
+            //      already been built.
+            //  - Another thread was assigned to build this context. Then, it doesn't matter if
+            //      this other thread has already finished the process, the current thread will
+            //      have to wait until the guard is released.
             let context_guard = self.context_vec[self.stack[i]].1.read().unwrap();
             let current_context = context_guard.as_ref().unwrap();
 
             let mut substitution = if i > 0 {
-                // Waits until OS allows to read this previous context. The code structure
-                // makes sure that this context, when released for reading, will be already
-                // instantiated since there are only 2 cases:
-                //  - This thread was responsible for building this previous context. Then
-                //      this context has already been built.
-                //  - Another thread was assigned to build this context. Then, it doesn't
-                //      matter if this other thread has already finished the process, the
-                //      current thread will have to wait until the guard is released.
-                let guard = self.context_vec[self.stack[i - 1]].1.read().unwrap();
-                guard
-                    .as_ref()
-                    .unwrap()
-                    .cumulative_substitution
-                    .clone()
-                    .unwrap()
+                self.cumulative_substitutions[i - 1].clone()
             } else {
                 Substitution::empty()
             };
@@ -234,11 +223,8 @@ impl ContextStack {
                 }
             }
 
-            // Drop the read guard, and acquire a write guard
             drop(context_guard);
-            let mut context_guard = self.context_vec[self.stack[i]].1.write().unwrap();
-            context_guard.as_mut().unwrap().cumulative_substitution = Some(substitution);
-            self.num_cumulative_calculated = i + 1;
+            self.cumulative_substitutions.push(substitution);
         }
     }
 
@@ -248,16 +234,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 2;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 
@@ -267,16 +244,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 1;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 }
-- 
2.43.0


From d28e5d2c74321fac6bb9d32db22ecb1a2b19d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 25/98] fix: the pools of the parallel checker's workers could
 give two sorts to terms of the same sort

---
 carcara/src/ast/pool/advanced.rs |  35 +++----
 carcara/src/ast/pool/mod.rs      | 162 ++++++++++++++++++++++++-------
 2 files changed, 145 insertions(+), 52 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..f79d690 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -100,28 +100,25 @@ impl LocalPool {
 
 impl TermPool for LocalPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If there is a constant pool and has the term
-        if let Some(entry) = self.ctx_pool.global_pool.storage.get(&term) {
-            entry.clone()
-        }
-        // If this term was inserted by the context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
-            entry.clone()
-        } else {
-            self.inner.add(term)
-        }
+        // The term might be in the constant pool, or have been inserted by the context. Otherwise,
+        // it is added to this pool, but its sort might already be in one of the others
+        self.inner.add_with_priorities(
+            term,
+            [
+                &self.ctx_pool.global_pool,
+                &self.ctx_pool.inner.read().unwrap(),
+            ],
+        )
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.ctx_pool.global_pool.sorts_cache.get(term) {
-            sort.clone()
-        }
-        // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
-        } else {
-            self.inner.sorts_cache[term].clone()
-        }
+        self.inner.sort_with_priorities(
+            term,
+            [
+                &self.ctx_pool.global_pool,
+                &self.ctx_pool.inner.read().unwrap(),
+            ],
+        )
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index ce9302a..9a21e59 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -71,6 +71,21 @@ impl PrimitivePool {
 
     /// Computes the sort of a term and adds it to the sort cache.
     fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
+        self.compute_sort_with_priorities(term, [])
+    }
+
+    /// Computes the sort of a term and adds it to the sort cache. Every term, including the sort
+    /// itself, is taken from the prior pools if they have it.
+    fn compute_sort_with_priorities<const N: usize>(
+        &mut self,
+        term: &Rc<Term>,
+        prior_pools: [&PrimitivePool; N],
+    ) -> Rc<Term> {
+        for p in prior_pools {
+            if let Some(sort) = p.sorts_cache.get(term) {
+                return sort.clone();
+            }
+        }
         if let Some(sort) = self.sorts_cache.get(term) {
             return sort.clone();
         }
@@ -137,7 +152,12 @@ impl PrimitivePool {
                 | Operator::BvSRem
                 | Operator::BvSMod
                 | Operator::BvAShr => {
-                    match self.compute_sort(&args[0]).as_sort().unwrap().clone() {
+                    match self
+                        .compute_sort_with_priorities(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone()
+                    {
                         Sort::BitVec(width) => Sort::BitVec(width),
                         Sort::ParamSort(v, head) => {
                             if let Some(Sort::Var(_)) = head.as_sort() {
@@ -157,7 +177,10 @@ impl PrimitivePool {
                     }
                     _ => Sort::ParamSort(
                         vec![args[1].clone()],
-                        self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                        self.add_with_priorities(
+                            Term::Sort(Sort::Var("BitVec".to_owned())),
+                            prior_pools,
+                        ),
                     ),
                 },
                 Operator::BvConcat => {
@@ -167,7 +190,12 @@ impl PrimitivePool {
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
                     for arg in args {
-                        match self.compute_sort(arg).as_sort().unwrap().clone() {
+                        match self
+                            .compute_sort_with_priorities(arg, prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
+                        {
                             Sort::BitVec(arg_width) => {
                                 total_width.push(TotalWidth::Width(arg_width));
                             }
@@ -186,17 +214,21 @@ impl PrimitivePool {
                             total_width
                                 .iter()
                                 .map(|x| match x {
-                                    TotalWidth::Width(w) => {
-                                        self.add(Term::Const(Constant::Integer((*w).into())))
-                                    }
+                                    TotalWidth::Width(w) => self.add_with_priorities(
+                                        Term::Const(Constant::Integer((*w).into())),
+                                        prior_pools,
+                                    ),
                                     TotalWidth::ParamSort(p) => p.clone(),
                                 })
                                 .collect(),
                         );
 
                         Sort::ParamSort(
-                            vec![self.add(add)],
-                            self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                            vec![self.add_with_priorities(add, prior_pools)],
+                            self.add_with_priorities(
+                                Term::Sort(Sort::Var("BitVec".to_owned())),
+                                prior_pools,
+                            ),
                         )
                     } else {
                         Sort::BitVec(total_width.iter().fold(0, |acc, x| match x {
@@ -205,12 +237,18 @@ impl PrimitivePool {
                         }))
                     }
                 }
-                Operator::Ite => self.compute_sort(&args[1]).as_sort().unwrap().clone(),
+                Operator::Ite => self
+                    .compute_sort_with_priorities(&args[1], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::Add | Operator::Sub | Operator::Mult | Operator::Abs => {
-                    if args
-                        .iter()
-                        .any(|a| self.compute_sort(a).as_sort().unwrap() == &Sort::Real)
-                    {
+                    if args.iter().any(|a| {
+                        self.compute_sort_with_priorities(a, prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            == &Sort::Real
+                    }) {
                         Sort::Real
                     } else {
                         Sort::Int
@@ -218,7 +256,11 @@ impl PrimitivePool {
                 }
                 Operator::RealDiv | Operator::ToReal => Sort::Real,
                 Operator::IntDiv | Operator::Mod | Operator::ToInt => Sort::Int,
-                Operator::Select => match self.compute_sort(&args[0]).as_sort().unwrap() {
+                Operator::Select => match self
+                    .compute_sort_with_priorities(&args[0], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                {
                     Sort::Array(_, y) => y.as_sort().unwrap().clone(),
                     Sort::ParamSort(v, head) => {
                         if let Some(Sort::Var(_)) = head.as_sort() {
@@ -229,7 +271,11 @@ impl PrimitivePool {
                     }
                     _ => unreachable!(),
                 },
-                Operator::Store => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                Operator::Store => self
+                    .compute_sort_with_priorities(&args[0], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::StrLen | Operator::IndexOf | Operator::StrToCode | Operator::StrToInt => {
                     Sort::Int
                 }
@@ -260,7 +306,11 @@ impl PrimitivePool {
                 Operator::RareList => Sort::RareList,
             },
             Term::App(f, args) => {
-                match self.compute_sort(f).as_sort().unwrap() {
+                match self
+                    .compute_sort_with_priorities(f, prior_pools)
+                    .as_sort()
+                    .unwrap()
+                {
                     Sort::Function(sorts) => sorts.last().unwrap().as_sort().unwrap().clone(),
                     Sort::ParamSort(_, p_sort) => {
                         let p_function_sort = p_sort.as_sort().unwrap();
@@ -269,8 +319,11 @@ impl PrimitivePool {
                             let mut map = IndexMap::new();
                             for i in 0..args.len() {
                                 let sort_i = sorts[i].as_sort().unwrap();
-                                let arg_sort_i =
-                                    self.compute_sort(&args[i]).as_sort().unwrap().clone();
+                                let arg_sort_i = self
+                                    .compute_sort_with_priorities(&args[i], prior_pools)
+                                    .as_sort()
+                                    .unwrap()
+                                    .clone();
                                 if !sort_i.match_with(&arg_sort_i, &mut map) {
                                     unreachable!();
                                 }
@@ -280,12 +333,16 @@ impl PrimitivePool {
                                 .map(|(var_name, sort)| {
                                     let var = Term::Sort(Sort::Var(var_name));
                                     let sort_t = Term::Sort(sort);
-                                    (self.add(var), self.add(sort_t))
+                                    (
+                                        self.add_with_priorities(var, prior_pools),
+                                        self.add_with_priorities(sort_t, prior_pools),
+                                    )
                                 })
                                 .collect();
-                            Substitution::new(self, substitution)
+                            let mut pool = PoolWithPriorities { pool: self, prior_pools };
+                            Substitution::new(&mut pool, substitution)
                                 .unwrap()
-                                .apply(self, sorts.last().unwrap())
+                                .apply(&mut pool, sorts.last().unwrap())
                                 .as_sort()
                                 .unwrap()
                                 .clone()
@@ -302,10 +359,14 @@ impl PrimitivePool {
             Term::Binder(Binder::Lambda, bindings, body) => {
                 let mut result: Vec<_> =
                     bindings.iter().map(|(_name, sort)| sort.clone()).collect();
-                result.push(self.compute_sort(body));
+                result.push(self.compute_sort_with_priorities(body, prior_pools));
                 Sort::Function(result)
             }
-            Term::Let(_, inner) => self.compute_sort(inner).as_sort().unwrap().clone(),
+            Term::Let(_, inner) => self
+                .compute_sort_with_priorities(inner, prior_pools)
+                .as_sort()
+                .unwrap()
+                .clone(),
             Term::ParamOp { op, op_args, args } => {
                 let sort = match op {
                     ParamOperator::BvExtract => {
@@ -315,20 +376,28 @@ impl PrimitivePool {
                     }
                     ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
                         let extension_width = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort_with_priorities(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
                         Sort::BitVec(extension_width + bv_width)
                     }
-                    ParamOperator::RotateLeft | ParamOperator::RotateRight => {
-                        self.compute_sort(&args[0]).as_sort().unwrap().clone()
-                    }
+                    ParamOperator::RotateLeft | ParamOperator::RotateRight => self
+                        .compute_sort_with_priorities(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone(),
                     ParamOperator::Repeat => {
                         let repetitions = op_args[0].as_integer().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort_with_priorities(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
@@ -350,7 +419,12 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
+        let result = Term::Sort(result);
+        let prior = prior_pools.iter().find_map(|p| p.storage.get(&result));
+        let sort = match prior {
+            Some(sort) => sort.clone(),
+            None => self.storage.add(result),
+        };
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -366,11 +440,13 @@ impl PrimitivePool {
                 return entry.clone();
             }
         }
-        self.add(term)
+        let term = self.storage.add(term);
+        self.compute_sort_with_priorities(&term, prior_pools);
+        term
     }
 
     fn sort_with_priorities<const N: usize>(
-        &mut self,
+        &self,
         term: &Rc<Term>,
         prior_pools: [&PrimitivePool; N],
     ) -> Rc<Term> {
@@ -453,6 +529,26 @@ impl PrimitivePool {
     }
 }
 
+/// A pool that uses the terms in the prior pools, and only adds a term if none of them has it.
+struct PoolWithPriorities<'a, const N: usize> {
+    pool: &'a mut PrimitivePool,
+    prior_pools: [&'a PrimitivePool; N],
+}
+
+impl<const N: usize> TermPool for PoolWithPriorities<'_, N> {
+    fn add(&mut self, term: Term) -> Rc<Term> {
+        self.pool.add_with_priorities(term, self.prior_pools)
+    }
+
+    fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
+        self.pool.sort_with_priorities(term, self.prior_pools)
+    }
+
+    fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
+        self.pool.free_vars_with_priorities(term, self.prior_pools)
+    }
+}
+
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
         let term = self.storage.add(term);
-- 
2.43.0


From d291622769c9a20742ad284680bf003ae3f0d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 26/98] fix: slice must assert the assumptions that come after
 a step

---
 carcara/src/slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 31f46bf..366d2f3 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -344,9 +344,8 @@ pub fn slice(
     let mut asserts = Vec::new();
 
     for command in &new_proof.commands {
-        match command {
-            ProofCommand::Assume { term, .. } => asserts.push(term.clone()),
-            _ => break,
+        if let ProofCommand::Assume { term, .. } = command {
+            asserts.push(term.clone());
         }
     }
 
-- 
2.43.0


From a6d1e7d6f77bb7927e51de0120bdcd57f0b097c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 27/98] fix: slice crashed if the step that ends an enclosing
 subproof has premises

---
 carcara/src/slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 366d2f3..aeddc1b 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -163,6 +163,9 @@ fn get_slice_body(
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
                 to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
+                for (premise, _) in &id_to_premise_ids[ult.id()] {
+                    to_keep.entry(premise.clone()).or_insert(false);
+                }
             }
         }
     };
-- 
2.43.0


From 71bd3832cb7a18201c0c5ee0d8c266e527940160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 28/98] fix: slice took exponential time when steps share
 premises

---
 carcara/src/slice.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index aeddc1b..7134028 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -71,12 +71,14 @@ fn get_transitive_premises(
     // Output
     let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
 
-    queue.push_back((step_id, max_distance + 1)); // Different use of distance than in interface. Here it is the number of steps to include after this one
+    queue.push_back((step_id, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
     while let Some((step_id, d)) = queue.pop_front() {
+        // The distances in the queue never increase, so the first time we see a step is the one in which we include the most steps after it.
+        if id_to_keep_premises.contains_key(&step_id) {
+            continue;
+        }
         let last = d == 0;
-        // We should always default to needing premises if there's a conflict between what's already in the map and what would be added.
-        let keep_premises = !last || *id_to_keep_premises.get(&step_id).unwrap_or(&false);
-        id_to_keep_premises.insert(step_id.clone(), keep_premises);
+        id_to_keep_premises.insert(step_id.clone(), !last);
         if !last {
             for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
                 queue.push_back((premise.to_owned(), d - 1));
-- 
2.43.0


From 0c574b1f6fc5fc6ff5844cad6d9b03e5d0b2122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 29/98] fix: slice wrote the problem and the proof in each
 other's --sliced-output file

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index b878e5a..9ffb92a 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -693,7 +693,7 @@ fn slice_command(
 
         // Write sliced problem and proof to provided paths or default locations.
         let (sliced_proof_file_name, sliced_problem_file_name) = match options.sliced_output {
-            Some(proof_prob) => (proof_prob[0].clone(), proof_prob[1].clone()),
+            Some(prob_proof) => (prob_proof[1].clone(), prob_proof[0].clone()),
             None => {
                 let path = Path::new(&options.input.proof_file);
                 let path_without_extension = path.with_extension("");
-- 
2.43.0


From 747d3e528d054616285ab9bf20206970da049ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 30/98] fix: slice confused commands in different subproofs
 that have the same id

---
 carcara/src/slice.rs | 117 ++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 52 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 7134028..50d2620 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -8,12 +8,24 @@ enum PremiseType {
     Premise,
     SubproofEnd,
 }
-/// Creates a map whose keys are step IDs in the proof until the conclusion of the outermost subproof of the target step
-/// whose values are vectors containing the IDs of those steps' premises.
+
+/// Identifies a command in the proof. IDs can't be used for this, because commands in different
+/// subproofs may have the same ID. A subproof is identified with its last step.
+type CommandKey = *const ProofCommand;
+
+fn key(command: &ProofCommand) -> CommandKey {
+    match command {
+        ProofCommand::Subproof(s) => s.commands.last().unwrap(),
+        _ => command,
+    }
+}
+
+/// Creates a map whose keys are the steps in the proof until the conclusion of the outermost subproof of the target step
+/// whose values are vectors containing those steps' premises.
 fn get_step_to_premises(
     proof: &Proof,
-    target_step: &str,
-) -> HashMap<String, Vec<(String, PremiseType)>> {
+    target_step: CommandKey,
+) -> HashMap<CommandKey, Vec<(CommandKey, PremiseType)>> {
     let mut map = HashMap::new();
     let mut iter = proof.iter();
     let mut num_open_subproofs: usize = 0;
@@ -26,30 +38,30 @@ fn get_step_to_premises(
             continue;
         };
 
-        if command.id() == target_step {
+        if key(command) == target_step {
             found_target = true;
         }
 
-        let mut premises: Vec<(String, PremiseType)> = step
+        let mut premises: Vec<(CommandKey, PremiseType)> = step
             .premises
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Premise))
+            .map(|p| (key(iter.get_premise(*p)), PremiseType::Premise))
             .collect();
 
-        let mut discharge: Vec<(String, PremiseType)> = step
+        let mut discharge: Vec<(CommandKey, PremiseType)> = step
             .discharge
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Discharge))
+            .map(|p| (key(iter.get_premise(*p)), PremiseType::Discharge))
             .collect();
 
         premises.append(&mut discharge);
 
         if iter.is_end_step() {
             let previous = iter.current_subproof().unwrap().iter().nth_back(1).unwrap();
-            premises.push((previous.id().to_owned(), PremiseType::SubproofEnd));
+            premises.push((key(previous), PremiseType::SubproofEnd));
             num_open_subproofs -= 1;
         }
-        map.insert(step.id.clone(), premises);
+        map.insert(key(command), premises);
 
         if found_target && num_open_subproofs == 0 {
             break;
@@ -58,35 +70,35 @@ fn get_step_to_premises(
     map
 }
 
-/// Produces a map containing all the ids of the transitive premises of the input step and
+/// Produces a map containing all the transitive premises of the input step and
 /// bools denoting whether we need the premises of those premises.
 fn get_transitive_premises(
-    step_id: String,
-    step_to_premises: &HashMap<String, Vec<(String, PremiseType)>>,
+    step: CommandKey,
+    step_to_premises: &HashMap<CommandKey, Vec<(CommandKey, PremiseType)>>,
     max_distance: usize,
-) -> HashMap<String, bool> {
+) -> HashMap<CommandKey, bool> {
     // Items to process in BFS
-    let mut queue: VecDeque<(String, usize)> = VecDeque::new();
+    let mut queue: VecDeque<(CommandKey, usize)> = VecDeque::new();
 
     // Output
-    let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
+    let mut keep_premises: HashMap<CommandKey, bool> = HashMap::new();
 
-    queue.push_back((step_id, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
-    while let Some((step_id, d)) = queue.pop_front() {
+    queue.push_back((step, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
+    while let Some((step, d)) = queue.pop_front() {
         // The distances in the queue never increase, so the first time we see a step is the one in which we include the most steps after it.
-        if id_to_keep_premises.contains_key(&step_id) {
+        if keep_premises.contains_key(&step) {
             continue;
         }
         let last = d == 0;
-        id_to_keep_premises.insert(step_id.clone(), !last);
+        keep_premises.insert(step, !last);
         if !last {
-            for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
-                queue.push_back((premise.to_owned(), d - 1));
+            for (premise, _) in step_to_premises.get(&step).unwrap_or(&Vec::new()) {
+                queue.push_back((*premise, d - 1));
             }
         }
     }
 
-    id_to_keep_premises
+    keep_premises
 }
 
 #[derive(Debug)]
@@ -135,13 +147,14 @@ fn get_slice_body(
 
     let from_step = from_step?;
 
-    let id_to_premise_ids = get_step_to_premises(proof, id);
+    let target = key(from_step);
 
-    let mut to_keep =
-        get_transitive_premises(from_step.id().to_owned(), &id_to_premise_ids, max_distance);
+    let step_to_premises = get_step_to_premises(proof, target);
 
-    // A map of IDs to their positions in the new proof.
-    let mut id_to_index: HashMap<String, (usize, usize)> = HashMap::new();
+    let mut to_keep = get_transitive_premises(target, &step_to_premises, max_distance);
+
+    // A map of commands to their positions in the new proof.
+    let mut new_index: HashMap<CommandKey, (usize, usize)> = HashMap::new();
 
     match from_step {
         ProofCommand::Assume { .. } => return None, // We can't slice an assume
@@ -151,22 +164,20 @@ fn get_slice_body(
                 // Get assumes
                 for command in &sp.commands {
                     if command.is_assume() {
-                        to_keep.insert(command.id().to_owned(), false);
+                        to_keep.insert(key(command), false);
                     } else {
                         break;
                     }
                 }
                 // Get second to last step
                 let penult = &sp.commands[sp.commands.len() - 2];
-                if !to_keep.contains_key(penult.id()) {
-                    to_keep.insert(penult.id().to_owned(), false);
-                }
+                to_keep.entry(key(penult)).or_insert(false);
 
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
-                to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
-                for (premise, _) in &id_to_premise_ids[ult.id()] {
-                    to_keep.entry(premise.clone()).or_insert(false);
+                to_keep.insert(key(ult), true); // We always need the "premises" of the last step of a subproof
+                for (premise, _) in &step_to_premises[&key(ult)] {
+                    to_keep.entry(*premise).or_insert(false);
                 }
             }
         }
@@ -187,7 +198,7 @@ fn get_slice_body(
     let mut child: Option<(usize, usize)> = None;
     while let Some(command) = copy_iter.next() {
         // Check if we want to copy this command
-        if let Some(&need_premises) = to_keep.get(command.id()) {
+        if let Some(&need_premises) = to_keep.get(&key(command)) {
             let stack_len = stack.len();
             match command {
                 // If the command is an assume, just copy it without change.
@@ -196,14 +207,14 @@ fn get_slice_body(
                     stack[stack_len - 1].commands.push(command.clone());
                     stack[stack_len - 1].current_position += 1;
 
-                    // Associate the ID of this assume with its new location in the proof.
-                    id_to_index.insert(command.id().to_owned(), last_placed);
+                    // Associate this assume with its new location in the proof.
+                    new_index.insert(key(command), last_placed);
                 }
                 // If the command is a step and we need its premises, copy it with its original rule and
                 // the new locations of its premises. Otherwise, use a trust hole.
                 ProofCommand::Step(proof_step) => {
                     // Make a note once we have encountered the target step so that we know we're no longer on premises
-                    if proof_step.id == id {
+                    if key(command) == target {
                         have_seen_target = true;
                     }
 
@@ -212,19 +223,23 @@ fn get_slice_body(
                             .current_subproof()
                             .expect("is_in_subproof is true, but current_subproof() is None");
                         let penult = &current_subproof[current_subproof.len() - 2];
-                        proof_step.id == penult.id()
+                        key(command) == key(penult)
                     };
 
                     let step = if need_premises {
                         let (premises, discharge) =
-                            if let Some(premise_ids) = id_to_premise_ids.get(command.id()) {
+                            if let Some(premises) = step_to_premises.get(&key(command)) {
                                 (
-                                    premise_ids
+                                    premises
                                         .iter()
                                         .filter(|(_, t)| matches!(t, PremiseType::Premise))
-                                        .map(|(s, _)| id_to_index[s])
+                                        .map(|(s, _)| new_index[s])
+                                        .collect(),
+                                    premises
+                                        .iter()
+                                        .filter(|(_, t)| matches!(t, PremiseType::Discharge))
+                                        .map(|(s, _)| new_index[s])
                                         .collect(),
-                                    proof_step.discharge.clone(),
                                 )
                             } else {
                                 (Vec::new(), Vec::new())
@@ -253,15 +268,13 @@ fn get_slice_body(
                         }
                     };
 
-                    // Associate the ID of this step with its new location in the proof.
+                    // Associate this step with its new location in the proof.
                     let last_placed = (stack.len() - 1, stack[stack.len() - 1].current_position);
-                    if !id_to_index.contains_key(command.id()) {
-                        id_to_index.insert(command.id().to_owned(), last_placed);
-                    }
+                    new_index.entry(key(command)).or_insert(last_placed);
 
                     // We need to artificially make the step we're slicing a transitive premise of any steps that occur after it,
                     // i.e., any steps we keep from its enclosing subproofs
-                    if proof_step.id == id {
+                    if key(command) == target {
                         child = Some(last_placed);
                     }
 
@@ -297,10 +310,10 @@ fn get_slice_body(
                                 context_id: subproof.context_id,
                             }));
 
-                        // Associate ID with location in new proof.
+                        // Associate the subproof with its location in the new proof.
                         let last_placed =
                             (stack.len() - 1, stack[stack.len() - 1].current_position);
-                        id_to_index.insert(command.id().to_owned(), last_placed);
+                        new_index.insert(key(command), last_placed);
 
                         // Push fresh frame to stack to keep track of subproof commands.
                         stack[stack_len - 1].current_position += 1;
-- 
2.43.0


From 66640223c8b27412c63620389716c5a60ca3f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 31/98] fix: keep the previous step of a subproof step when it
 is not a regular step

---
 carcara/src/elaborator/subproof.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carcara/src/elaborator/subproof.rs b/carcara/src/elaborator/subproof.rs
index 6610d20..2c923ee 100644
--- a/carcara/src/elaborator/subproof.rs
+++ b/carcara/src/elaborator/subproof.rs
@@ -8,9 +8,9 @@ pub fn subproof(
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let unchanged = || Ok(Rc::new(ProofNode::Step(step.clone())));
 
-    let previous_step = &step.previous_step.as_ref().unwrap().as_step().unwrap();
+    let previous_command = step.previous_step.as_ref().unwrap();
 
-    let [previous] = previous_step.clause.as_slice() else {
+    let [previous] = previous_command.clause() else {
         return unchanged();
     };
     let last_term = step.clause.last().unwrap();
@@ -40,7 +40,7 @@ pub fn subproof(
         depth: step.depth,
         clause: vec![last_term.clone()],
         rule: "resolution".to_owned(),
-        premises: vec![equiv1_step, step.previous_step.clone().unwrap()],
+        premises: vec![equiv1_step, previous_command.clone()],
         args: vec![previous.clone(), pool.bool_false()],
         ..StepNode::default()
     }));
-- 
2.43.0


From 3ba3fcdca561a3042adaff525537de7631279d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 32/98] fix: keep reordering steps that cannot be removed when
 elaborating

---
 carcara/src/elaborator/reordering.rs | 56 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 6267e7f..8040799 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::utils::DedupIterator;
+use crate::utils::{DedupIterator, MultiSet};
 
 pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     proof.mutate(|_, node, premises_changed| {
@@ -7,19 +7,26 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
             return node.clone();
         };
 
-        // For reordering steps, we remove the step and return its only premise
+        // For reordering steps, we remove the step and return its only premise. If the step ends a
+        // subproof, or copies a clause from outside of its subproof, we must keep it
         if step.rule == "reordering" {
+            if step.previous_step.is_some() || step.premises[0].depth() != step.depth {
+                return node.clone();
+            }
             return step.premises[0].clone();
         }
 
         // If the rule is order-sensitive, and any premise was modified, we recompute the conclusion
         if let Some(recompute) = get_recomputation_func(&step.rule) {
             if premises_changed {
-                let new = Rc::new(ProofNode::Step(StepNode {
-                    clause: recompute(step),
-                    ..step.clone()
-                }));
-                return new;
+                // If the recomputed clause is not a permutation of the original conclusion (e.g. if
+                // the step implicitly contracts its conclusion), or if there is no way of
+                // recomputing it, the step does not depend on the order of its premises' clauses
+                if let Some(clause) = recompute(step) {
+                    if MultiSet::from_iter(&clause) == MultiSet::from_iter(&step.clause) {
+                        return Rc::new(ProofNode::Step(StepNode { clause, ..step.clone() }));
+                    }
+                }
             }
         }
 
@@ -28,7 +35,7 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     })
 }
 
-type RecomputationFunc = fn(&StepNode) -> Vec<Rc<Term>>;
+type RecomputationFunc = fn(&StepNode) -> Option<Vec<Rc<Term>>>;
 
 fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     Some(match rule {
@@ -39,20 +46,18 @@ fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     })
 }
 
-fn recompute_weakening(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_weakening(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let mut new = step.clause.clone();
     let premise = step.premises[0].clause();
     new[..premise.len()].clone_from_slice(premise);
-    new
+    Some(new)
 }
 
-fn recompute_contraction(step: &StepNode) -> Vec<Rc<Term>> {
-    let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
-    assert_eq!(step.clause.len(), new.len());
-    new
+fn recompute_contraction(step: &StepNode) -> Option<Vec<Rc<Term>>> {
+    Some(step.premises[0].clause().iter().dedup().cloned().collect())
 }
 
-fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_resolution(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let premise_clauses: Vec<_> = step.premises.iter().map(|p| p.clause()).collect();
     let pivots: Vec<_> = step
         .args
@@ -63,13 +68,18 @@ fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
             (pivot, polarity)
         })
         .collect();
+
+    // If the step doesn't have its pivots as arguments, the order of its conclusion is irrelevant
+    if premise_clauses.len() < 2 || pivots.len() != premise_clauses.len() - 1 {
+        return None;
+    }
     apply_naive_resolution(&premise_clauses, &pivots)
 }
 
-fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]) -> Vec<Rc<Term>> {
-    assert!(premises.len() >= 2);
-    assert_eq!(pivots.len(), premises.len() - 1);
-
+fn apply_naive_resolution(
+    premises: &[&[Rc<Term>]],
+    pivots: &[(&Rc<Term>, bool)],
+) -> Option<Vec<Rc<Term>>> {
     let mut current = premises[0].to_vec();
 
     for (&premise, &(pivot, polarity)) in premises[1..].iter().zip(pivots) {
@@ -81,7 +91,7 @@ fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]
             }
         };
 
-        let pos = current.iter().position(|x| is_pivot(x, true)).unwrap();
+        let pos = current.iter().position(|x| is_pivot(x, true))?;
         current.remove(pos);
 
         let mut found = false;
@@ -92,8 +102,10 @@ fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]
                 current.push(t.clone());
             }
         }
-        assert!(found);
+        if !found {
+            return None;
+        }
     }
 
-    current
+    Some(current)
 }
-- 
2.43.0


From 068c4f7b789b0527f3ba5a8ecc933505269242e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 33/98] fix: leave degenerate transitivity steps unchanged when
 elaborating

---
 carcara/src/elaborator/transitivity.rs | 32 +++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/transitivity.rs b/carcara/src/elaborator/transitivity.rs
index 8f9579b..0e3d29c 100644
--- a/carcara/src/elaborator/transitivity.rs
+++ b/carcara/src/elaborator/transitivity.rs
@@ -1,5 +1,5 @@
 use super::{add_symm_step, IdHelper};
-use crate::{ast::*, checker::error::CheckerError};
+use crate::{ast::*, checker::error::CheckerError, utils::DedupIterator};
 
 /// Similar to `find_chain`, but reorders a premises vector to match the found chain. In `trans`,
 /// this is used to reorder the step premises vector; in `eq_transitive`, it is used to reorder the
@@ -71,6 +71,15 @@ pub fn trans(
         &mut new_premises,
     )?;
 
+    // If the conclusion is a reflexive equality, no premise is needed
+    if num_needed == 0 {
+        return Ok(Rc::new(ProofNode::Step(StepNode {
+            rule: "refl".to_owned(),
+            premises: Vec::new(),
+            ..step.clone()
+        })));
+    }
+
     // If there are any premises in the step which are not needed to complete the transitivity
     // chain, we simply remove them in the elaborated step.
     new_premises.truncate(num_needed);
@@ -118,6 +127,27 @@ pub fn eq_transitive(
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
+    // An `eq_transitive` step must have at least two premises, so if fewer of them are needed we can't
+    // simplify this step
+    if num_needed < 2 {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
+    // If the clause has the same equality in both directions, or a flipped equality more than once, the
+    // resolution step that restores the original equalities would not be valid
+    let flipped: Vec<_> = should_flip
+        .iter()
+        .map(|&i| {
+            let (a, b) = match_term!((not (= a b)) = new_clause[i]).unwrap();
+            build_term!(pool, (not (= {b.clone()} {a.clone()})))
+        })
+        .collect();
+    if flipped.iter().any(|t| step.clause.contains(t))
+        || flipped.iter().dedup().count() != flipped.len()
+    {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
     for &i in &should_flip {
         new_clause[i] = if let Some((a, b)) = match_term!((not (= a b)) = &new_clause[i]) {
             build_term!(pool, (not (= {b.clone()} {a.clone()})))
-- 
2.43.0


From c3180ac311978d2d19639b612e85d51ac3578889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 34/98] fix: handle congruence steps without needed premises
 when elaborating

---
 carcara/src/elaborator/congruence.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/congruence.rs b/carcara/src/elaborator/congruence.rs
index c32e1e7..17c4be0 100644
--- a/carcara/src/elaborator/congruence.rs
+++ b/carcara/src/elaborator/congruence.rs
@@ -75,7 +75,6 @@ pub fn cong(
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
     assert_eq!(step.clause.len(), 1);
-    assert!(!step.premises.is_empty());
 
     let (f, g) = match_term_err!((= f g) = &step.clause[0])?;
 
@@ -229,6 +228,16 @@ pub fn eq_congruent(
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
+    // If the clause also has one of the flipped equalities in the other direction, the resolution step
+    // that restores the original equalities would not be valid
+    if premises
+        .iter()
+        .zip(&flipped)
+        .any(|(&(t, u), flipped)| *flipped && premises.contains(&(u, t)))
+    {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
     // If there are any flipped premises, we need to change the `eq_congruent` step's conclusion to
     // fix them, and then reconstruct the original conclusion. The general idea is to, for each
     // flipped premise `(not (= u t))`, add an `eq_symmetric` step concluding `(= (= u t) (= t u))`,
-- 
2.43.0


From 6bae4ce049edd9a7db11a582e57041fc6fa4b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 35/98] fix: do not reuse equalities across binders in the
 polyequality elaborator

---
 carcara/src/elaborator/polyeq.rs | 41 +++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..1f84135 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -10,6 +10,9 @@ pub(super) struct PolyeqElaborator<'a> {
     cache: HashMapStack<(Rc<Term>, Rc<Term>), Rc<ProofNode>>,
     checker: Polyeq,
     context: Option<ContextStack>,
+
+    /// The variables bound by each of the subproofs that are currently open
+    bound: Vec<Vec<Rc<Term>>>,
 }
 
 impl<'a> PolyeqElaborator<'a> {
@@ -22,6 +25,7 @@ impl<'a> PolyeqElaborator<'a> {
                 .mod_reordering(true)
                 .alpha_equiv(is_alpha_equivalence),
             context: is_alpha_equivalence.then(ContextStack::new),
+            bound: Vec::new(),
         }
     }
 
@@ -34,8 +38,20 @@ impl<'a> PolyeqElaborator<'a> {
         b: Rc<Term>,
     ) -> Rc<ProofNode> {
         let key = (a, b);
-        if let Some(p) = self.cache.get(&key) {
-            return p.clone();
+        if let Some((scope, p)) = self.cache.get_with_depth(&key) {
+            // If the equality was derived outside of the current subproof, we can only use it if it
+            // doesn't mention the variables bound since then
+            let p = p.clone();
+            let is_bound = |pool: &mut PrimitivePool, term| {
+                let free_vars = pool.free_vars(term);
+                self.bound[scope..]
+                    .iter()
+                    .flatten()
+                    .any(|var| free_vars.contains(var))
+            };
+            if !is_bound(pool, &key.0) && !is_bound(pool, &key.1) {
+                return p;
+            }
         }
         // We have to do this to avoid moving `a` and `b` when calling `self.cache.get`
         let (a, b) = key.clone();
@@ -89,15 +105,6 @@ impl<'a> PolyeqElaborator<'a> {
                     self.build_cong(pool, (&a, &b), (a_args, b_args))
                 }
             }
-
-            // Since `choice` and `lambda` terms are not in the SMT-LIB standard, they cannot appear
-            // in the premises of a proof, so we would never need to elaborate polyequalities that
-            // use these terms.
-            (Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _), _)
-            | (_, Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _)) => {
-                log::error!("Trying to elaborate polyequality between `{b}` terms");
-                panic!()
-            }
             (Term::Binder(a_q, a_bindings, a_inner), Term::Binder(b_q, b_bindings, b_inner)) => {
                 assert_eq!(a_q, b_q);
 
@@ -139,7 +146,7 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                 };
 
-                self.open_subproof();
+                self.open_subproof(pool, &args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
 
                 if let Some(c) = &mut self.context {
@@ -180,7 +187,7 @@ impl<'a> PolyeqElaborator<'a> {
                     })
                     .collect();
 
-                self.open_subproof();
+                self.open_subproof(pool, &args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
@@ -329,7 +336,12 @@ impl<'a> PolyeqElaborator<'a> {
         add_trans_step(pool, [cong_step, equiv_step], self.ids.next_id())
     }
 
-    fn open_subproof(&mut self) {
+    fn open_subproof(&mut self, pool: &mut PrimitivePool, args: &[AnchorArg]) {
+        let bound = args.iter().filter_map(|arg| match arg {
+            AnchorArg::Variable(var) => Some(pool.add(var.clone().into())),
+            AnchorArg::Assign(..) => None,
+        });
+        self.bound.push(bound.collect());
         self.cache.push_scope();
         self.ids.push();
     }
@@ -340,6 +352,7 @@ impl<'a> PolyeqElaborator<'a> {
         mut last_step: StepNode,
         outbound_premises: Vec<Rc<ProofNode>>,
     ) -> Rc<ProofNode> {
+        self.bound.pop();
         self.cache.pop_scope();
         self.ids.pop();
 
-- 
2.43.0


From bb6b4b3c58c8c59149764eb1ab24e77605a73a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 36/98] fix: do not emit invalid resolution chains when
 elaborating resolution

---
 carcara/src/elaborator/resolution.rs | 200 ++++++++++++++++++++++++++-
 1 file changed, 194 insertions(+), 6 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index bccf76f..52f87e5 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::{ast::*, checker::error::CheckerError, resolution::*, utils::DedupIterator};
+use indexmap::{IndexMap, IndexSet};
 
 pub fn resolution(
     pool: &mut PrimitivePool,
@@ -54,12 +55,21 @@ pub fn resolution(
     let mut premises: Vec<_> = step.premises.iter().dedup().cloned().collect();
     let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
 
-    let ResolutionTrace { not_not_added, pivot_trace } =
-        greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
-            premises.reverse();
-            let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
-            greedy_resolution(&step.clause, &premise_clauses, pool, true)
-        })?;
+    let trace = greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
+        premises.reverse();
+        let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
+        greedy_resolution(&step.clause, &premise_clauses, pool, true)
+    });
+    let Some(ResolutionTrace { not_not_added, pivot_trace }) = trace
+        .ok()
+        .filter(|trace| is_valid_trace(&step.clause, &premises, trace))
+    else {
+        // The pivots found by the greedy algorithm do not always form a valid resolution chain. In
+        // that case, we find a chain by unit propagation. If even that is not possible (e.g. because
+        // the step uses implicit double negation elimination), the step is not changed
+        return Ok(resolution_by_propagation(pool, step, &mut ids)
+            .unwrap_or_else(|| Rc::new(ProofNode::Step(step.clone()))));
+    };
 
     let pivots = pivot_trace
         .into_iter()
@@ -144,3 +154,181 @@ pub fn resolution(
         Ok(Rc::new(ProofNode::Step(resolution_step)))
     }
 }
+
+/// Applies the resolution chain given by the pivots, treating the clauses as sets of literals.
+fn apply_pivots<'a>(
+    premises: &[&'a Rc<ProofNode>],
+    pivots: &'a [(Rc<Term>, bool)],
+) -> Option<IndexSet<Literal<'a>>> {
+    let literals = |p: &'a Rc<ProofNode>| -> IndexSet<Literal<'a>> {
+        p.clause().iter().map(Rc::remove_all_negations).collect()
+    };
+
+    if pivots.is_empty() || premises.len() != pivots.len() + 1 {
+        return None;
+    }
+    let mut current = literals(premises[0]);
+    for (premise, (pivot, polarity)) in premises[1..].iter().zip(pivots) {
+        let pivot = pivot.remove_all_negations();
+        let negated_pivot = (pivot.0 + 1, pivot.1);
+        let (in_current, in_next) = if *polarity {
+            (pivot, negated_pivot)
+        } else {
+            (negated_pivot, pivot)
+        };
+
+        let mut next = literals(premise);
+        if !current.shift_remove(&in_current) || !next.shift_remove(&in_next) {
+            return None;
+        }
+        current.extend(next);
+    }
+    Some(current)
+}
+
+/// Returns `true` if the pivots in the trace are those of a resolution chain between the premises
+/// that concludes the given clause.
+fn is_valid_trace(
+    conclusion: &[Rc<Term>],
+    premises: &[Rc<ProofNode>],
+    trace: &ResolutionTrace,
+) -> bool {
+    let premises: Vec<_> = premises.iter().collect();
+    let Some(result) = apply_pivots(&premises, &trace.pivot_trace) else {
+        return false;
+    };
+    if trace.not_not_added {
+        let c = conclusion[0]
+            .remove_negation()
+            .and_then(Rc::remove_negation);
+        return c.is_some_and(|c| result == IndexSet::from([c.remove_all_negations()]));
+    }
+    let conclusion: IndexSet<_> = conclusion.iter().map(Rc::remove_all_negations).collect();
+    result == conclusion
+}
+
+/// Finds a resolution chain by unit propagation: we assume the negation of every literal in the
+/// conclusion, and propagate until one of the premises becomes empty. Resolving that premise with
+/// the premises that were used in the propagation, from last to first, results in a subset of the
+/// conclusion, to which the remaining literals are added by a `weakening` step.
+fn resolution_by_propagation(
+    pool: &mut PrimitivePool,
+    step: &StepNode,
+    ids: &mut IdHelper,
+) -> Option<Rc<ProofNode>> {
+    let premises: Vec<_> = step.premises.iter().dedup().collect();
+    let clauses: Vec<IndexSet<_>> = premises
+        .iter()
+        .map(|p| {
+            let literals = p.clause().iter();
+            literals
+                .map(Rc::remove_all_negations_with_polarity)
+                .collect()
+        })
+        .collect();
+
+    let conclusion: IndexSet<_> = step
+        .clause
+        .iter()
+        .map(Rc::remove_all_negations_with_polarity)
+        .collect();
+
+    // The derived value of each atom, with the premise that was used to derive it. The conclusion
+    // might have complementary literals, so its atoms are not included here
+    let mut trail: IndexMap<&Rc<Term>, (bool, usize)> = IndexMap::new();
+
+    let conflict = loop {
+        let mut changed = false;
+        let mut conflict = None;
+        for (i, clause) in clauses.iter().enumerate() {
+            let mut open = clause.iter().filter(|&&(polarity, atom)| {
+                !conclusion.contains(&(polarity, atom))
+                    && trail.get(atom).is_none_or(|&(value, _)| value == polarity)
+            });
+            match (open.next(), open.next()) {
+                (None, _) => {
+                    conflict = Some(i);
+                    break;
+                }
+                (Some(&(polarity, atom)), None)
+                    if !trail.contains_key(atom) && !conclusion.contains(&(!polarity, atom)) =>
+                {
+                    trail.insert(atom, (polarity, i));
+                    changed = true;
+                }
+                _ => (),
+            }
+        }
+        if conflict.is_some() || !changed {
+            break conflict?;
+        }
+    };
+
+    let mut current = clauses[conflict].clone();
+    let mut chain = vec![premises[conflict]];
+    let mut pivots = Vec::new();
+    for (&atom, &(value, reason)) in trail.iter().rev() {
+        if current.shift_remove(&(!value, atom)) {
+            current.extend(clauses[reason].iter().filter(|l| **l != (value, atom)));
+            chain.push(premises[reason]);
+            pivots.push((atom.clone(), !value));
+        }
+    }
+
+    let mut new_step = |clause: Vec<_>, rule: &str, premises: Vec<_>, args: Vec<_>| {
+        Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth: step.depth,
+            clause,
+            rule: rule.to_owned(),
+            premises,
+            args,
+            ..Default::default()
+        }))
+    };
+
+    let mut latest = chain[0].clone();
+    let clause: Vec<_> = if pivots.is_empty() {
+        latest.clause().iter().dedup().cloned().collect()
+    } else {
+        let result = apply_pivots(&chain, &pivots)?;
+        result
+            .into_iter()
+            .map(|l| literal_to_term(pool, l))
+            .collect()
+    };
+    if clause.iter().any(|t| !step.clause.contains(t)) {
+        return None;
+    }
+
+    if !pivots.is_empty() {
+        let args = pivots
+            .iter()
+            .flat_map(|(pivot, polarity)| [pivot.clone(), pool.bool_constant(*polarity)])
+            .collect();
+        let premises = chain.into_iter().cloned().collect();
+        latest = new_step(clause.clone(), "resolution", premises, args);
+    } else if clause.len() != latest.clause().len() {
+        latest = new_step(clause.clone(), "contraction", vec![latest], Vec::new());
+    }
+
+    let mut missing = step.clause.clone();
+    for term in &clause {
+        let pos = missing.iter().position(|t| t == term).unwrap();
+        missing.remove(pos);
+    }
+    if !missing.is_empty() {
+        let clause = clause.into_iter().chain(missing).collect();
+        latest = new_step(clause, "weakening", vec![latest], Vec::new());
+    }
+
+    Some(Rc::new(ProofNode::Step(StepNode {
+        id: step.id.clone(),
+        depth: step.depth,
+        clause: step.clause.clone(),
+        rule: "reordering".to_owned(),
+        premises: vec![latest],
+        previous_step: step.previous_step.clone(),
+        ..Default::default()
+    })))
+}
-- 
2.43.0


From ea252c21a281a6adf8dc4b1afc298ad929973061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 37/98] fix: leave resolution steps that cannot be uncrowded
 unchanged

---
 carcara/src/elaborator/uncrowding.rs | 58 ++++++++++++++++++----------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 4bf64f5..4e20f12 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -34,13 +34,15 @@ impl<'a> ResolutionPremise<'a> {
     }
 }
 
-fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal<'a>> {
+/// Applies the resolution chain, removing a single occurrence of the pivots at each step. Returns
+/// `None` if the premises cannot be resolved in this order.
+fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Option<Vec<Literal<'a>>> {
     assert!(premises.len() >= 2);
 
     let mut current = premises[0].clause.clone();
 
     for ResolutionPremise { clause, pivot, .. } in &premises[1..] {
-        let (pivot, polarity) = pivot.unwrap();
+        let (pivot, polarity) = (*pivot)?;
 
         let negated_pivot = (pivot.0 + 1, pivot.1);
         let (pivot_in_current, pivot_in_next) = if polarity {
@@ -49,7 +51,7 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal
             (negated_pivot, pivot)
         };
 
-        let pos = current.iter().position(|x| x == &pivot_in_current).unwrap();
+        let pos = current.iter().position(|x| x == &pivot_in_current)?;
         current.remove(pos);
 
         let mut found = false;
@@ -60,10 +62,12 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal
                 current.push(t);
             }
         }
-        assert!(found);
+        if !found {
+            return None;
+        }
     }
 
-    current
+    Some(current)
 }
 
 pub fn uncrowd_resolution(
@@ -71,11 +75,22 @@ pub fn uncrowd_resolution(
     step: &StepNode,
     rotate_premises: bool,
 ) -> Rc<ProofNode> {
+    // If the step relies on a pivot being removed more than once (for instance, because a premise
+    // reintroduces a literal that was already eliminated), it is left unchanged
+    try_uncrowd_resolution(pool, step, rotate_premises)
+        .unwrap_or_else(|| Rc::new(ProofNode::Step(step.clone())))
+}
+
+fn try_uncrowd_resolution(
+    pool: &mut PrimitivePool,
+    step: &StepNode,
+    rotate_premises: bool,
+) -> Option<Rc<ProofNode>> {
     let target_conclusion: HashSet<_> = step.clause.iter().map(Rc::remove_all_negations).collect();
 
     let mut premises = ResolutionPremise::from_step(step);
 
-    let naive_conclusion = apply_naive_resolution(&premises);
+    let naive_conclusion = apply_naive_resolution(&premises)?;
 
     let mut literals_info =
         find_crowding_literals(&naive_conclusion, &target_conclusion, &premises);
@@ -102,7 +117,7 @@ pub fn uncrowd_resolution(
             step.depth,
             &premises[previous_cut..cut],
             &step.clause,
-        );
+        )?;
         premises[cut - 1] = ResolutionPremise { node, clause, pivot: None };
         previous_cut = cut - 1;
     }
@@ -110,7 +125,7 @@ pub fn uncrowd_resolution(
     let mut final_step = premises[previous_cut].node.as_step().unwrap().clone();
 
     if final_step.clause.len() != step.clause.len() {
-        let clause = get_weakening_clause(&final_step.clause, &step.clause);
+        let clause = get_weakening_clause(&final_step.clause, &step.clause)?;
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -123,7 +138,9 @@ pub fn uncrowd_resolution(
 
     // We might need to add a reordering step
     if final_step.clause != step.clause {
-        assert!(final_step.clause.iter().collect::<HashSet<_>>() == step.clause.iter().collect());
+        if final_step.clause.iter().collect::<HashSet<_>>() != step.clause.iter().collect() {
+            return None;
+        }
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -137,7 +154,7 @@ pub fn uncrowd_resolution(
     // To make sure elaboration is idempotent, we need to change the last id to match the original
     // step's id
     final_step.id = step.id.clone();
-    Rc::new(ProofNode::Step(final_step))
+    Some(Rc::new(ProofNode::Step(final_step)))
 }
 
 fn add_partial_resolution_step<'a>(
@@ -146,8 +163,8 @@ fn add_partial_resolution_step<'a>(
     depth: usize,
     premises: &[ResolutionPremise<'a>],
     final_target: &[Rc<Term>],
-) -> (Rc<ProofNode>, Vec<Literal<'a>>) {
-    let conclusion = apply_naive_resolution(premises);
+) -> Option<(Rc<ProofNode>, Vec<Literal<'a>>)> {
+    let conclusion = apply_naive_resolution(premises)?;
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
@@ -172,7 +189,7 @@ fn add_partial_resolution_step<'a>(
     }));
 
     if resolution_step.clause() == final_target {
-        return (resolution_step, conclusion);
+        return Some((resolution_step, conclusion));
     }
 
     if needs_contraction {
@@ -187,25 +204,24 @@ fn add_partial_resolution_step<'a>(
             discharge: Vec::new(),
             previous_step: None,
         }));
-        (contraction_step, contracted_conclusion)
+        Some((contraction_step, contracted_conclusion))
     } else {
-        (resolution_step, conclusion)
+        Some((resolution_step, conclusion))
     }
 }
 
-fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Vec<Rc<Term>> {
+fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Option<Vec<Rc<Term>>> {
     let mut missing: MultiSet<_> = target.iter().collect();
     for term in current {
-        assert!(
-            missing.get(&term) != 0,
-            "current clause is not a subset of target clause!"
-        );
+        if missing.get(&term) == 0 {
+            return None;
+        }
         missing.remove(term);
     }
 
     let mut result = current.to_vec();
     result.extend(missing.into_iter().cloned());
-    result
+    Some(result)
 }
 
 #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
-- 
2.43.0


From b10b8cbf21c3ce4b896788408818d4e06c8e348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 38/98] fix: refuse bit-vector operators whose index gives no
 well-sorted term

---
 carcara/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 33a1354..47c2a30 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1670,6 +1670,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
+                assert_indexed_op_args_value(&op_args, 1..)?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1688,7 +1689,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 if !matches!(sorts[0], Sort::BitVec(_)) {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
                 }
-                assert_indexed_op_args_value(&op_args, 0..)?;
+                let minimum = if op == ParamOperator::Repeat { 1 } else { 0 };
+                assert_indexed_op_args_value(&op_args, minimum..)?;
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
-- 
2.43.0


From 0d877daef1d322445632ae9081e985a243df8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 39/98] fix: refuse a fraction literal without denominator
 instead of panicking

---
 carcara/src/parser/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..898915c 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -383,6 +383,11 @@ impl<R: BufRead> Lexer<R> {
                 let e = ParserError::UnexpectedChar(self.current_char.unwrap());
                 return Err(Error::Parser(e, self.position));
             }
+            if second_part.is_empty() && delimiter == '/' {
+                // The denominator of a fraction can't be empty
+                let e = ParserError::UnexpectedChar(delimiter);
+                return Err(Error::Parser(e, self.position));
+            }
             let r = match delimiter {
                 '/' => {
                     let [numer, denom] =
-- 
2.43.0


From c4d1c382ed03f1b7fb4d24d8a2dcc3f2b6d15a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 40/98] fix: read (_ bvX n) as X modulo 2^n, and refuse
 malformed ones instead of panicking

---
 carcara/src/parser/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 47c2a30..8e83b8a 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1557,7 +1557,16 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let Some(parsed_value) = value
+                .parse::<Integer>()
+                .ok()
+                .filter(|_| value.bytes().all(|c| c.is_ascii_digit()))
+            else {
+                return Err(Error::Parser(
+                    ParserError::InvalidIndexedOp(op_symbol),
+                    self.current_position,
+                ));
+            };
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
@@ -1624,10 +1633,17 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&op_args, 2)?;
                 assert_num_args(&args, 0)?;
                 let value = op_args[0].as_integer().unwrap();
-                let width = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
                 assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
-                return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
+                let width = op_args[1].as_integer().unwrap();
+                let width = width
+                    .to_u32()
+                    .ok_or_else(|| ParserError::ExpectedIntegerConstant(op_args[1].clone()))?;
+                // The value of `(_ bvX n)` is `X` modulo `2^n`
+                let value = value.keep_bits(width);
+                return Ok(self
+                    .pool
+                    .add(Term::Const(Constant::BitVec(value, width as usize))));
             }
             ParamOperator::BvExtract => {
                 /*
-- 
2.43.0


From b9190d89cd0d23abab4c544c791c5349ae5d93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 41/98] fix: refuse bit-vector sorts whose width is not a
 positive number

---
 carcara/src/parser/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 8e83b8a..826d166 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1968,12 +1968,11 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 if args.len() != 1 {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
-                if let Some(width) = args[0].as_integer() {
-                    Ok(self
-                        .pool
-                        .add(Term::Sort(Sort::BitVec(width.to_usize().unwrap()))))
-                } else {
-                    Err(ParserError::ExpectedIntegerConstant(args[0].clone()))
+                match args[0].as_integer().and_then(|width| width.to_usize()) {
+                    Some(width) if width > 0 => {
+                        Ok(self.pool.add(Term::Sort(Sort::BitVec(width))))
+                    }
+                    _ => Err(ParserError::ExpectedIntegerConstant(args[0].clone())),
                 }
             }
             _ => Err(ParserError::UndefinedSort(name)),
-- 
2.43.0


From 39e65cd5227f9b841b27e0ebfb5ac2b530ef79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 42/98] fix: do not confuse the parameters of a sort definition
 with other sorts

---
 carcara/src/parser/mod.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 826d166..a043aa7 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1346,20 +1346,38 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.expect_token(Token::OpenParen)?;
         let params = self.parse_sequence(Self::expect_symbol, false)?;
 
-        // In order to correctly parse the sort definition, we push a new scope to the sort
-        // declarations table and add the sort parameters to it.
-        self.state.sort_declarations.push_scope();
-        for s in &params {
-            self.state.sort_declarations.insert(s.clone(), 0);
-        }
+        // In order to correctly parse the sort definition, we temporarily define each of the sort
+        // parameters as a placeholder. Since a parameter may have the same name as another sort,
+        // the placeholders have names that can't appear in the input.
+        let shadowed: Vec<_> = params
+            .iter()
+            .map(|s| {
+                let placeholder = self.pool.add(Term::Sort(Self::sort_param_placeholder(s)));
+                let def = SortDef {
+                    params: Vec::new(),
+                    body: placeholder,
+                };
+                (s.clone(), self.state.sort_defs.insert(s.clone(), def))
+            })
+            .collect();
         let body = self.parse_sort(false)?;
-        self.state.sort_declarations.pop_scope();
+        for (s, old) in shadowed.into_iter().rev() {
+            match old {
+                Some(def) => self.state.sort_defs.insert(s, def),
+                None => self.state.sort_defs.shift_remove(&s),
+            };
+        }
 
         self.expect_token(Token::CloseParen)?;
 
         Ok((name, SortDef { params, body }))
     }
 
+    /// The sort that stands for a parameter in the body of a sort definition.
+    fn sort_param_placeholder(name: &str) -> Sort {
+        Sort::Atom(format!("|{name}").into_boxed_str(), Box::new([]))
+    }
+
     /// Parses a clause of the form `(cl <term>*)`.
     fn parse_clause(&mut self) -> CarcaraResult<Vec<Rc<Term>>> {
         self.expect_token(Token::OpenParen)?;
@@ -1933,11 +1951,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     let substitution = def
                         .params
                         .iter()
-                        .cloned()
-                        .map(|name| {
-                            self.pool
-                                .add(Term::Sort(Sort::Atom(name.into_boxed_str(), Box::new([]))))
-                        })
+                        .map(|name| self.pool.add(Term::Sort(Self::sort_param_placeholder(name))))
                         .zip(args)
                         .collect();
 
-- 
2.43.0


From 91ed3e5f15e5e80c2251e5391adfd568bcf7f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 43/98] fix: quote symbols that look like negative numbers when
 printing

---
 carcara/src/ast/printer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..b4afd02 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -443,12 +443,15 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 
     // Any symbol that:
     // - is an empty string,
-    // - starts with a digit,
+    // - starts with a digit, or with `-` followed by a digit,
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || symbol
+            .strip_prefix('-')
+            .unwrap_or(symbol)
+            .starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
-- 
2.43.0


From c7c66aa7a52c3fd29a39aeb4f4eadfb67e0d8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 44/98] fix: escape backslashes that could start a unicode
 escape sequence when printing strings

---
 carcara/src/ast/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index b4afd02..437b3aa 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -462,8 +462,10 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
-    if string.contains('"') {
-        Cow::Owned(string.replace('"', "\"\""))
+    if string.contains('"') || string.contains("\\u") {
+        // A backslash before a `u` could be read as the start of a unicode escape sequence
+        let string = string.replace('"', "\"\"").replace("\\u", "\\u{5c}u");
+        Cow::Owned(string)
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From 971fff5968d78bb99cb1e6f0080c408925364b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 45/98] fix: print constant arrays as they are read

---
 carcara/src/ast/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 437b3aa..eded21b 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -354,6 +354,15 @@ impl<'a> AlethePrinter<'a> {
                 term.print_with_sharing(self)?;
                 write!(self.inner, ")")
             }
+            Term::ParamOp {
+                op: op @ ParamOperator::ArrayConst,
+                op_args,
+                args,
+            } => {
+                write!(self.inner, "((as {}", op)?;
+                self.write_s_expr_tail(op_args)?;
+                self.write_s_expr_tail(args)
+            }
             Term::ParamOp { op, op_args, args } => {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
-- 
2.43.0


From b45a372294f713821347cdcd97be1c3e3d76210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 46/98] fix: print an empty cl term as it is read

---
 carcara/src/ast/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index eded21b..829aeb4 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -333,7 +333,9 @@ impl<'a> AlethePrinter<'a> {
             Term::Var(name, _) => write!(self.inner, "{}", quote_symbol(name)),
             Term::App(func, args) => self.write_s_expr(func, args),
             Term::Op(op, args) => {
-                if args.is_empty() {
+                if args.is_empty() && *op == Operator::Cl {
+                    write!(self.inner, "({})", op)
+                } else if args.is_empty() {
                     write!(self.inner, "{}", op)
                 } else {
                     self.write_s_expr(op, args)
-- 
2.43.0


From 20bf0790dca25737016675c79d01a581cc9f65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 47/98] fix: quote rule names and the first discharged id when
 printing

---
 carcara/src/ast/printer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 829aeb4..3ceb864 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -388,7 +388,7 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        write!(self.inner, " :rule {}", quote_rule(&step.rule))?;
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -412,7 +412,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
@@ -472,6 +472,18 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     }
 }
 
+/// Quotes a rule name, if necessary. Unlike other symbols, the name of a rule may be a reserved word.
+fn quote_rule(rule: &str) -> Cow<'_, str> {
+    use crate::parser::Reserved;
+    use std::str::FromStr;
+
+    if Reserved::from_str(rule).is_ok() {
+        Cow::Borrowed(rule)
+    } else {
+        quote_symbol(rule)
+    }
+}
+
 fn escape_string(string: &str) -> Cow<'_, str> {
     if string.contains('"') || string.contains("\\u") {
         // A backslash before a `u` could be read as the start of a unicode escape sequence
-- 
2.43.0


From 3fc04f9d85aeb2a5d9ec314bfd75c8e2f183e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 48/98] fix: print a defined constant only where it has the
 meaning of its definition

---
 carcara/src/ast/printer.rs | 79 +++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 3ceb864..a25cb97 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -101,8 +101,10 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
-        if let Some(name) = p.defined_constants.get(self) {
-            return write!(p.inner, "{}", quote_symbol(name));
+        if let Some(name) = p.defined_constants.get(self).cloned() {
+            if !p.scope.contains(&name) && !has_bound_symbol(p.pool, &p.scope, self) {
+                return write!(p.inner, "{}", quote_symbol(&name));
+            }
         }
         if let Some(indices) = &mut p.term_indices {
             // There are a few cases where we don't use sharing when printing a term:
@@ -183,24 +185,41 @@ struct AlethePrinter<'a> {
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
+    /// The names that are currently bound, by a binder, a `let`, or an anchor.
+    scope: Vec<String>,
     smt_lib_strict: bool,
 }
 
 impl PrintProof for AlethePrinter<'_> {
     fn write_proof(&mut self, proof: &Proof) -> io::Result<()> {
-        for (name, value) in &proof.constant_definitions {
+        // Since all definitions are printed at the start of the proof, where they are in scope for
+        // all commands, we can only use the ones that are meaningful there, and that don't change
+        // the meaning of other symbols or of other definitions.
+        let mut names: HashSet<_> = self
+            .global_vars
+            .iter()
+            .filter_map(|v| v.as_var().map(str::to_owned))
+            .collect();
+        let mut definitions = Vec::new();
+        for (name, value) in proof.constant_definitions.iter().rev() {
+            if value.is_closed(self.pool, &self.global_vars) && names.insert(name.clone()) {
+                definitions.push((name, value));
+            }
+        }
+        definitions.reverse();
+
+        for (name, value) in &definitions {
             write!(self.inner, "(define-fun {} () ", quote_symbol(name))?;
             self.pool.sort(value).print_with_sharing(self)?;
             write!(self.inner, " ")?;
             value.print_with_sharing(self)?;
             writeln!(self.inner, ")")?;
         }
-        self.defined_constants = proof
-            .constant_definitions
-            .iter()
-            .cloned()
-            .map(|(name, term)| (term, name))
+        self.defined_constants = definitions
+            .into_iter()
+            .map(|(name, term)| (term.clone(), name.clone()))
             .collect();
+        let mut scopes = Vec::new();
         let mut iter = proof.iter();
         while let Some(command) = iter.next() {
             match command {
@@ -212,6 +231,7 @@ impl PrintProof for AlethePrinter<'_> {
                 ProofCommand::Step(s) => self.write_step(&mut iter, s)?,
                 ProofCommand::Subproof(s) => {
                     write!(self.inner, "(anchor :step {}", quote_symbol(command.id()))?;
+                    scopes.push(self.scope.len());
 
                     if !s.args.is_empty() {
                         write!(self.inner, " :args (")?;
@@ -227,6 +247,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.scope.push(name.clone());
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -234,6 +255,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.scope.push(var.0.clone());
                                 }
                             }
                         }
@@ -244,6 +266,9 @@ impl PrintProof for AlethePrinter<'_> {
                 }
             }
             writeln!(self.inner)?;
+            if iter.is_end_step() {
+                self.scope.truncate(scopes.pop().unwrap_or(0));
+            }
         }
         self.defined_constants.clear();
         Ok(())
@@ -257,15 +282,11 @@ impl<'a> AlethePrinter<'a> {
         use_sharing: bool,
         dest: &'a mut dyn io::Write,
     ) -> Self {
-        let global_variables = if use_sharing {
-            prelude
-                .function_declarations
-                .iter()
-                .map(|var| pool.add(var.clone().into()))
-                .collect()
-        } else {
-            HashSet::new()
-        };
+        let global_variables = prelude
+            .function_declarations
+            .iter()
+            .map(|var| pool.add(var.clone().into()))
+            .collect();
         Self {
             pool,
             inner: dest,
@@ -273,10 +294,20 @@ impl<'a> AlethePrinter<'a> {
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
             defined_constants: HashMap::new(),
+            scope: Vec::new(),
             smt_lib_strict: false,
         }
     }
 
+    /// Prints a term inside the scope of the given bound variables.
+    fn write_in_scope(&mut self, bindings: &BindingList, term: &Rc<Term>) -> io::Result<()> {
+        let depth = self.scope.len();
+        self.scope.extend(bindings.iter().map(|(name, _)| name.clone()));
+        let result = term.print_with_sharing(self);
+        self.scope.truncate(depth);
+        result
+    }
+
     fn write_s_expr<H, T>(&mut self, head: &H, tail: &[T]) -> io::Result<()>
     where
         H: PrintWithSharing + ?Sized,
@@ -346,14 +377,14 @@ impl<'a> AlethePrinter<'a> {
                 write!(self.inner, "({} ", binder)?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::Let(bindings, term) => {
                 write!(self.inner, "(let ")?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::ParamOp {
@@ -434,6 +465,15 @@ impl<'a> AlethePrinter<'a> {
     }
 }
 
+/// Returns `true` if the term contains a symbol that is bound in the given scope.
+fn has_bound_symbol(pool: &mut PrimitivePool, scope: &[String], term: &Rc<Term>) -> bool {
+    !scope.is_empty()
+        && pool.free_vars(term).iter().any(|v| {
+            v.as_var()
+                .is_some_and(|name| scope.iter().any(|bound| bound == name))
+        })
+}
+
 fn write_s_expr<H, T>(f: &mut fmt::Formatter, head: H, tail: &[T]) -> fmt::Result
 where
     H: fmt::Display,
@@ -509,6 +549,7 @@ impl fmt::Display for Term {
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
+            scope: Vec::new(),
             smt_lib_strict: false,
         };
         printer.write_raw_term(self).unwrap();
-- 
2.43.0


From 4740cd9fe7e325bea75f489fa751e97982fb695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 49/98] fix: do not share terms whose symbols are shadowed when
 printing

---
 carcara/src/ast/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index a25cb97..528a6cf 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -124,7 +124,9 @@ impl PrintWithSharing for Rc<Term> {
                 || Rc::strong_count(self) <= 3
                 // - Terms which are not closed, that is, terms which have free variables besides
                 // the global variables, cannot be shared
-                || !self.is_closed(p.pool, &p.global_vars);
+                || !self.is_closed(p.pool, &p.global_vars)
+                // - Likewise for terms with a global variable that is shadowed in this scope
+                || has_bound_symbol(p.pool, &p.scope, self);
 
             if !cannot_use_sharing {
                 return if let Some(i) = indices.get(self) {
-- 
2.43.0


From 840a58cc4fc424f5075f7e59c2c65b9ac837ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 50/98] fix: do not name a shared term like a declared symbol
 when printing

---
 carcara/src/ast/printer.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 528a6cf..f4af66f 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -132,7 +132,14 @@ impl PrintWithSharing for Rc<Term> {
                 return if let Some(i) = indices.get(self) {
                     write!(p.inner, "{}{}", p.term_sharing_variable_prefix, i)
                 } else {
-                    let i = indices.len();
+                    // We skip the names that are already used by some declared symbol
+                    let mut i = indices.last().map_or(0, |(_, last)| last + 1);
+                    while p
+                        .declared_names
+                        .contains(&format!("{}{}", p.term_sharing_variable_prefix, i))
+                    {
+                        i += 1;
+                    }
                     indices.insert(self.clone(), i);
                     write!(p.inner, "(! ")?;
                     p.write_raw_term(self)?;
@@ -187,6 +194,7 @@ struct AlethePrinter<'a> {
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
+    declared_names: HashSet<String>,
     /// The names that are currently bound, by a binder, a `let`, or an anchor.
     scope: Vec<String>,
     smt_lib_strict: bool,
@@ -197,11 +205,7 @@ impl PrintProof for AlethePrinter<'_> {
         // Since all definitions are printed at the start of the proof, where they are in scope for
         // all commands, we can only use the ones that are meaningful there, and that don't change
         // the meaning of other symbols or of other definitions.
-        let mut names: HashSet<_> = self
-            .global_vars
-            .iter()
-            .filter_map(|v| v.as_var().map(str::to_owned))
-            .collect();
+        let mut names = self.declared_names.clone();
         let mut definitions = Vec::new();
         for (name, value) in proof.constant_definitions.iter().rev() {
             if value.is_closed(self.pool, &self.global_vars) && names.insert(name.clone()) {
@@ -296,6 +300,11 @@ impl<'a> AlethePrinter<'a> {
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
             defined_constants: HashMap::new(),
+            declared_names: prelude
+                .function_declarations
+                .iter()
+                .map(|(name, _)| name.clone())
+                .collect(),
             scope: Vec::new(),
             smt_lib_strict: false,
         }
@@ -551,6 +560,7 @@ impl fmt::Display for Term {
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
+            declared_names: HashSet::new(),
             scope: Vec::new(),
             smt_lib_strict: false,
         };
-- 
2.43.0


From f16fa6e5ecf782b9b9faae8891b98e0e09cac357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 51/98] fix: accept an empty step id outside of subproofs
 instead of panicking

---
 carcara/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index a043aa7..ea8c355 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -978,9 +978,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 ));
             }
 
+            let is_root = stack.len() == 1;
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if !is_root && top_end_step == id.as_ref() {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
-- 
2.43.0


From 82840fa96fca0337c620d3c0806cbf721e8dd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 52/98] fix: read bit-vectors with the sign bit set as negative
 numbers when evaluating

---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..7d847e0 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -77,7 +77,7 @@ impl Value {
         let (val, w) = self.as_bitvec()?;
         let val = if val.get_bit((w - 1) as u32) {
             let m = Integer::from(1) << w;
-            m.clone() - val
+            val.clone() - m
         } else {
             val.clone()
         };
-- 
2.43.0


From c7f5e20a3f2fe80bdc625301df8c29c2db5d0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 53/98] fix: keep the highest bit when evaluating extract

---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 7d847e0..2c3e0a1 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -505,7 +505,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let j = op_args[1].as_int()?.to_usize().unwrap();
             let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
+            let bits = bits.clone().keep_bits(i as u32 + 1) >> j;
             Value::new_bitvec(bits, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
-- 
2.43.0


From d01667e0f32ab5bb11346204e0970f77abf7d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 54/98] fix: evaluate rotations by more than the width without
 underflow

---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 2c3e0a1..3c75bce 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -522,7 +522,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
-            Value::new_bitvec(rotate_right(value, w, w - i), w)
+            Value::new_bitvec(rotate_right(value, w, w - i % w), w)
         }
         ParamOperator::RotateRight => {
             let i = op_args[0].as_int()?.to_usize().unwrap();
-- 
2.43.0


From c820b251c4ee1d92775a4d1682ae55aa005dc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 55/98] fix: evaluate bit-vector shifts by more than the width

---
 carcara/src/ast/evaluate.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 3c75bce..555522b 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -409,26 +409,20 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            let b = b.to_usize().map_or(w, |b| b.min(w));
+            Value::new_bitvec(a.clone() << b, w)
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() >> b.to_usize()?, w)
+            let b = b.to_usize().map_or(w, |b| b.min(w));
+            Value::new_bitvec(a.clone() >> b, w)
         }
         Operator::BvAShr => {
-            let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
-            let mut result = a.clone() >> b;
-            if a.get_bit((w - 1) as u32) {
-                // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
-                // followed by w - b 0s:
-                // |----w----|
-                // |-b-|
-                // 11111000000
-                let mask = ((Integer::from(1) << b) - 1) << (w - b);
-                result |= mask;
-            }
-            Value::new_bitvec(result, w)
+            let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_bitvec()?);
+            // Shifting by `w` bits or more leaves only copies of the sign bit. The right shift of a
+            // negative `Integer` rounds down, so it already fills the new bits with 1s
+            let b = b.to_usize().map_or(w, |b| b.min(w));
+            Value::new_bitvec(a >> b, w)
         }
         Operator::BvULt => bitvec_comparison_op!(<, args),
         Operator::BvULe => bitvec_comparison_op!(<=, args),
-- 
2.43.0


From b3588c845b9c85d279a6f702f7cedd542aeebbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 56/98] fix: evaluate bvsmod with operands of different signs

---
 carcara/src/ast/evaluate.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 555522b..18ec979 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,4 +1,5 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
+use rug::ops::RemRounding;
 use rug::{Integer, Rational};
 use std::collections::{HashMap, HashSet};
 
@@ -401,11 +402,14 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The sign of the result of `bvsrem` follows the dividend, and that of `bvsmod` follows
+            // the divisor
+            let value = if op == Operator::BvSRem {
+                a % b
+            } else {
+                a.rem_floor(b)
+            };
+            Value::new_bitvec(value, w)
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-- 
2.43.0


From 6689f1b3d2eda745f80befee0b250f6779ac2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 57/98] fix: evaluate integer division and modulo as in
 SMT-LIB, and never divide by zero

---
 carcara/src/ast/evaluate.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 18ec979..9094dd1 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,5 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::ops::RemRounding;
+use rug::ops::{DivRounding, RemRounding};
 use rug::{Integer, Rational};
 use std::collections::{HashMap, HashSet};
 
@@ -85,6 +85,15 @@ impl Value {
         Some((val, w))
     }
 
+    /// Returns `true` if the value is the integer or real number zero.
+    fn is_zero(&self) -> bool {
+        match self {
+            Value::Integer(i) => i.is_zero(),
+            Value::Real(r) => r.is_zero(),
+            _ => false,
+        }
+    }
+
     /// Constructs a constant term that corresponds to this value.
     pub fn into_term(self) -> Term {
         match self {
@@ -279,9 +288,29 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
-        Operator::RealDiv => arith_op!(/, args, "real"),
-        Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
+        Operator::IntDiv => {
+            let first = args[0].as_int()?;
+            let result = args[1..].iter().try_fold(first, |acc, arg| {
+                let arg = arg.as_int()?;
+                // The value of a division by zero is not specified
+                (!arg.is_zero()).then(|| acc.div_euc(arg))
+            })?;
+            Value::Integer(result)
+        }
+        Operator::RealDiv => {
+            // The value of a division by zero is not specified
+            if args[1..].iter().any(Value::is_zero) {
+                return None;
+            }
+            arith_op!(/, args, "real")
+        }
+        Operator::Mod => {
+            let (a, b) = (args[0].as_int()?, args[1].as_int()?);
+            if b.is_zero() {
+                return None;
+            }
+            Value::Integer(a.rem_floor(b))
+        }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
             Value::Real(r) => Value::Real(r.clone().abs()),
-- 
2.43.0


From 29d5cdbad6ef3e546e733249ad15418baac12159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 58/98] fix: compare integers and reals by their numeric value
 when evaluating

---
 carcara/src/ast/evaluate.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 9094dd1..6cebcf5 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -94,6 +94,14 @@ impl Value {
         }
     }
 
+    /// Converts a real value that is an integer to the corresponding integer value.
+    fn normalize_real(self) -> Self {
+        match self {
+            Value::Real(r) if r.is_integer() => Value::Integer(r.into_numer_denom().0),
+            other => other,
+        }
+    }
+
     /// Constructs a constant term that corresponds to this value.
     pub fn into_term(self) -> Term {
         match self {
@@ -268,10 +276,15 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             args.iter()
                 .try_fold(false, |acc, arg| Some(acc != arg.as_bool()?))?,
         ),
-        Operator::Equals => Value::Bool(args.windows(2).all(|w| w[0] == w[1])),
-        Operator::Distinct => {
-            let set: HashSet<&Value> = args.iter().collect();
-            Value::Bool(set.len() == args.len())
+        Operator::Equals | Operator::Distinct => {
+            // When integers are allowed as reals, equal numbers may appear in different forms
+            let args: Vec<_> = args.into_iter().map(Value::normalize_real).collect();
+            if op == Operator::Equals {
+                Value::Bool(args.windows(2).all(|w| w[0] == w[1]))
+            } else {
+                let set: HashSet<&Value> = args.iter().collect();
+                Value::Bool(set.len() == args.len())
+            }
         }
         Operator::Ite => {
             if args[0].as_bool()? {
-- 
2.43.0


From ade58c1ce5f1cab06dfba5602879020b8ee1154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 59/98] fix: reject non-positive widths in bit-vector constants
 instead of panicking

---
 carcara/src/ast/evaluate.rs | 4 ++--
 carcara/src/ast/pool/mod.rs | 4 +++-
 carcara/src/parser/mod.rs   | 3 +++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 6cebcf5..50fa73a 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -507,8 +507,8 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         Operator::BvSize => Value::Integer(args[0].as_bitvec()?.1.into()),
         Operator::BvConst => {
             let value = args[0].as_int()?;
-            let width = args[1].as_int()?.to_usize().unwrap();
-            Value::new_bitvec(value, width)
+            let width = args[1].as_int()?.to_u32().filter(|w| *w > 0)?;
+            Value::new_bitvec(value, width as usize)
         }
         Operator::BvBbTerm => {
             let width = args.len();
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 9a21e59..a195707 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -172,7 +172,9 @@ impl PrimitivePool {
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
                 Operator::BvConst => match &*args[1] {
-                    Term::Const(Constant::Integer(bvsize)) => {
+                    Term::Const(Constant::Integer(bvsize))
+                        if bvsize.to_u32().is_some_and(|w| w > 0) =>
+                    {
                         Sort::BitVec(bvsize.to_usize().unwrap())
                     }
                     _ => Sort::ParamSort(
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index ea8c355..4ab2e53 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -513,6 +513,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&args, 2)?;
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
                 SortError::assert_eq(&Sort::Int, sorts[1])?;
+                if args[1].as_integer().is_some() {
+                    assert_indexed_op_args_value(&[args[1].clone()], 1..)?;
+                }
             }
             Operator::BvConcat => {
                 assert_num_args(&args, 2..)?;
-- 
2.43.0


From c9ee32069de8b5fdb71bf6d9e4f91d1ae1b1f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 60/98] fix: reject indices that are too large instead of
 panicking

---
 carcara/src/parser/mod.rs | 19 ++++++++++---------
 carcara/src/utils.rs      |  9 +++++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 4ab2e53..7176d51 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -846,8 +846,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self
-                        .parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
+                    let terms =
+                        self.parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
@@ -1688,7 +1688,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         return Err(ParserError::ExpectedIntegerConstant(arg.clone()));
                     }
                 }
-                assert_indexed_op_args_value(&op_args, 0..)?;
+                assert_indexed_op_args_value(&op_args, 0..=u32::MAX)?;
                 let i = op_args[0].as_integer().unwrap().to_usize().unwrap();
                 let j = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 let Sort::BitVec(m) = sorts[0].clone() else {
@@ -1708,7 +1708,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
-                assert_indexed_op_args_value(&op_args, 1..)?;
+                assert_indexed_op_args_value(&op_args, 1..=u32::MAX)?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1728,7 +1728,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
                 }
                 let minimum = if op == ParamOperator::Repeat { 1 } else { 0 };
-                assert_indexed_op_args_value(&op_args, minimum..)?;
+                assert_indexed_op_args_value(&op_args, minimum..=u32::MAX)?;
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
@@ -1955,7 +1955,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     let substitution = def
                         .params
                         .iter()
-                        .map(|name| self.pool.add(Term::Sort(Self::sort_param_placeholder(name))))
+                        .map(|name| {
+                            self.pool
+                                .add(Term::Sort(Self::sort_param_placeholder(name)))
+                        })
                         .zip(args)
                         .collect();
 
@@ -1987,9 +1990,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
                 match args[0].as_integer().and_then(|width| width.to_usize()) {
-                    Some(width) if width > 0 => {
-                        Ok(self.pool.add(Term::Sort(Sort::BitVec(width))))
-                    }
+                    Some(width) if width > 0 => Ok(self.pool.add(Term::Sort(Sort::BitVec(width)))),
                     _ => Err(ParserError::ExpectedIntegerConstant(args[0].clone())),
                 }
             }
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 3ad9401..733c4d0 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -322,6 +322,15 @@ impl From<ops::RangeFrom<usize>> for Range {
     }
 }
 
+impl From<ops::RangeInclusive<u32>> for Range<Integer> {
+    fn from(r: ops::RangeInclusive<u32>) -> Self {
+        Self(
+            Some(Integer::from(*r.start())),
+            Some(Integer::from(*r.end())),
+        )
+    }
+}
+
 impl From<ops::RangeFrom<i32>> for Range<Integer> {
     fn from(r: ops::RangeFrom<i32>) -> Self {
         Self(Some(Integer::from(r.start)), None)
-- 
2.43.0


From 8e3f7c705e0ceca9c195810d018ec34279233585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 61/98] fix: only strengthen disequalities over integers in
 la_generic

---
 .../src/checker/rules/linear_arithmetic.rs    | 142 +++++++++---------
 1 file changed, 69 insertions(+), 73 deletions(-)

diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..e1dd60b 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -178,89 +178,79 @@ impl LinearComb {
         self.add(other)
     }
 
-    /// Finds the greatest common divisor of the coefficients in the linear combination. Returns
-    /// 1 if the linear combination is empty, or if any of the coefficients is not an integer.
-    fn coefficients_gcd(&self) -> Integer {
-        if !self.1.is_integer() {
-            return Integer::from(1);
-        }
+    /// Returns `true` if every value that the left side of this linear combination can take is an
+    /// integer multiple of some rational number. That is the case if all non-constant terms in it
+    /// are integers.
+    fn is_over_integers(&self, pool: &mut dyn TermPool) -> bool {
+        self.0.keys().all(|term| {
+            let is_to_real = matches!(term.as_ref(), Term::Op(Operator::ToReal, _));
+            is_to_real || pool.sort(term).as_sort() == Some(&Sort::Int)
+        })
+    }
 
-        let mut result = self.1.numer().clone();
-        for (_, coeff) in &self.0 {
-            if result == 1 {
-                return Integer::from(1);
-            }
-            if coeff.is_integer() {
-                result.gcd_mut(coeff.numer());
-            } else {
-                return Integer::from(1);
-            }
+    /// Finds the greatest common divisor of the coefficients in the linear combination, that is,
+    /// the biggest rational number `g` such that every coefficient is an integer multiple of `g`.
+    /// Returns 1 if there are no coefficients.
+    fn coefficients_gcd(&self) -> Rational {
+        let (mut numer, mut denom) = (Integer::new(), Integer::from(1));
+        for coeff in self.0.values() {
+            numer.gcd_mut(coeff.numer());
+            denom.lcm_mut(coeff.denom());
         }
-
-        // If the linear combination is all zeros, the result would also be zero. In that case, we
-        // have to return one instead
-        std::cmp::max(Integer::from(1), result)
+        if numer == 0 {
+            return Rational::from(1);
+        }
+        Rational::from((numer, denom))
     }
 }
 
-fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
-    // Multiplications are expensive, so we avoid them if we can
-    let is_integer = if *a == 0 {
-        true
-    } else if *a == 1 {
-        disequality.1.is_integer()
-    } else {
-        (disequality.1.clone() * a).is_integer()
-    };
+/// Applies the strengthening rules of `la_generic`. They are only valid if the disequality is over
+/// integers.
+fn strengthen(pool: &mut dyn TermPool, op: Operator, disequality: &mut LinearComb) -> Operator {
+    if op == Operator::Equals || !disequality.is_over_integers(pool) {
+        return op;
+    }
 
+    // In some cases, we can make the strengthening rules even stronger. Consider for instance the
+    // following example:
+    // ```
+    //     (step t1 (cl
+    //         (not (<= (- 1) n))
+    //         (not (<= (- 1) (+ n m)))
+    //         (<= (- 2) (* 2 n))
+    //         (not (<= m 1))
+    //     ) :rule la_generic :args (1 1 1 1))
+    // ```
+    // After the third disequality is negated and flipped, it becomes:
+    //     -2 * n > 2
+    // If nothing fancy is done, this would strengthen to:
+    //     -2 * n >= 3
+    // However, in this case, we can divide the disequality by 2 before strengthening, and then
+    // multiply it by 2 to get back. This would result in:
+    //     -2 * n > 2
+    //     -1 * n > 1
+    //     -1 * n >= 2
+    //     -2 * n >= 4
+    // This is a stronger statement, and follows from the original disequality. Importantly,
+    // this strengthening is sometimes necessary to check some `la_generic` steps. The value by
+    // which we divide is the greatest common divisor of the coefficients of the variables. The
+    // strengthening is still valid because, since the variables are integers, the result of their
+    // linear combination will always be a multiple of their GCD.
+    let gcd = disequality.coefficients_gcd();
+    disequality.1 /= &gcd;
     match op {
-        Operator::GreaterEq if is_integer => op,
-
-        // In some cases, when the disequality is over integers, we can make the strengthening
-        // rules even stronger. Consider for instance the following example:
-        // ```
-        //     (step t1 (cl
-        //         (not (<= (- 1) n))
-        //         (not (<= (- 1) (+ n m)))
-        //         (<= (- 2) (* 2 n))
-        //         (not (<= m 1))
-        //     ) :rule la_generic :args (1 1 1 1))
-        // ```
-        // After the third disequality is negated and flipped, it becomes:
-        //     -2 * n > 2
-        // If nothing fancy is done, this would strengthen to:
-        //     -2 * n >= 3
-        // However, in this case, we can divide the disequality by 2 before strengthening, and then
-        // multiply it by 2 to get back. This would result in:
-        //     -2 * n > 2
-        //     -1 * n > 1
-        //     -1 * n >= 2
-        //     -2 * n >= 4
-        // This is a stronger statement, and follows from the original disequality. Importantly,
-        // this strengthening is sometimes necessary to check some `la_generic` steps. To find the
-        // value by which we should divide we have to take the greatest common divisor of the
-        // coefficients (including the constant value on the right-hand side), as this makes sure
-        // all coefficients will continue being integers after the division. This strengthening is
-        // still valid because, since the variables are integers, the result of their linear
-        // combination will always be a multiple of their GCD.
-        Operator::GreaterThan if is_integer => {
-            // Instead of dividing and then multiplying back, we just multiply the "+ 1"
-            // that is added by the strengthening rule
-            disequality.1.floor_mut();
-            disequality.1 += disequality.coefficients_gcd();
-            Operator::GreaterEq
-        }
-        Operator::GreaterThan | Operator::GreaterEq => {
+        Operator::GreaterThan => {
             disequality.1.floor_mut();
             disequality.1 += 1;
-            Operator::GreaterEq
         }
-        Operator::LessThan | Operator::LessEq => unreachable!(),
-        _ => op,
+        Operator::GreaterEq => disequality.1.ceil_mut(),
+        _ => unreachable!(),
     }
+    disequality.1 *= &gcd;
+    Operator::GreaterEq
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
@@ -293,7 +283,7 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             }
 
             // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            let op = strengthen(pool, op, &mut disequality);
 
             // Step 5: Multiply disequality by a
             let a = match op {
@@ -302,6 +292,9 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             };
             disequality.mul(&a);
 
+            // If the coefficient is zero, all that is left of the disequality is `0 = 0`
+            let op = if a == 0 { Operator::Equals } else { op };
+
             Ok((op, disequality))
         })
         .try_fold(
@@ -310,8 +303,11 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
                 let new_op = match (acc_op, op) {
-                    (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
+                    // The sum is strict if at least one of the disequalities is
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => {
+                        Operator::GreaterThan
+                    }
+                    (Operator::GreaterEq, _) | (_, Operator::GreaterEq) => Operator::GreaterEq,
                     _ => acc_op,
                 };
                 Ok((new_op, new_acc))
-- 
2.43.0


From 0f6ecc87a5bf151e190dcfaf7aa20a180bbc4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 62/98] fix: evaluate constant divisions according to their
 semantics

---
 carcara/src/ast/term.rs                       | 22 +++++++++++++++----
 .../src/checker/rules/linear_arithmetic.rs    | 20 +++++++++++++++--
 carcara/src/checker/rules/polynomial.rs       |  3 +--
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..0d36aaf 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -888,13 +888,27 @@ impl Term {
     /// `Some` if the term is:
     ///
     /// - A real or integer constant
-    /// - An application of the `/` or `div` operators on two real or integer constants
-    /// - An application of the unary `-` operator on one of the two previous cases
+    /// - An application of the `/` operator on two real or integer constants
+    /// - An application of the `div` operator on two integer constants
+    /// - An application of the unary `-` operator on one of the previous cases
+    ///
+    /// Applications where the divisor is zero are not fractions, and the value of an application of
+    /// `div` is the result of the integer division.
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let [n, d] = [args[0].as_signed_number()?, args[1].as_signed_number()?];
+                    if d.is_zero() {
+                        None
+                    } else if *op == Operator::RealDiv {
+                        Some(n / d)
+                    } else if n.is_integer() && d.is_integer() {
+                        let [n, d] = [n, d].map(|r| r.into_numer_denom().0);
+                        Some(n.div_rem_euc(d).0.into())
+                    } else {
+                        None
+                    }
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index e1dd60b..724d625 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -250,14 +250,30 @@ fn strengthen(pool: &mut dyn TermPool, op: Operator, disequality: &mut LinearCom
     Operator::GreaterEq
 }
 
+/// Interprets an argument of `la_generic` as a number. Some solvers use the `div` operator to write
+/// fractions in these arguments.
+fn as_coefficient(term: &Rc<Term>) -> Option<Rational> {
+    let (is_negative, inner) = match match_term!((-x) = term) {
+        Some(x) => (true, x),
+        None => (false, term),
+    };
+    match match_term!((div n d) = inner) {
+        Some((n, d)) => {
+            let (n, d) = (n.as_signed_number()?, d.as_signed_number()?);
+            let result = if d.is_zero() { return None } else { n / d };
+            Some(if is_negative { -result } else { result })
+        }
+        None => term.as_fraction(),
+    }
+}
+
 pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
         .iter()
         .map(|a| {
-            a.as_fraction()
-                .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
+            as_coefficient(a).ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
         })
         .collect::<Result<_, _>>()?;
 
diff --git a/carcara/src/checker/rules/polynomial.rs b/carcara/src/checker/rules/polynomial.rs
index 44fb8d3..72f0744 100644
--- a/carcara/src/checker/rules/polynomial.rs
+++ b/carcara/src/checker/rules/polynomial.rs
@@ -71,8 +71,7 @@ impl Polynomial {
             Term::Op(Operator::ToReal, args) => {
                 self.add_term(&args[0], coeff);
             }
-            // We check for division by zero separately because `.as_fraction` panics if the
-            // denominator is zero. In this case, we consider the term an atom.
+            // In the case of a division by zero, we consider the term an atom.
             Term::Op(Operator::RealDiv | Operator::IntDiv, args)
                 if args.len() == 2 && args[1].as_fraction().is_some_and(|r| r.is_zero()) =>
             {
-- 
2.43.0


From a8ae2af25a3ec6cb5e07569ec6bf7bcee07cd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 63/98] fix: reject division of zero by zero in div_simplify

---
 carcara/src/checker/rules/simplification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index abf16f6..9ee81e8 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -427,6 +427,9 @@ pub fn div_simplify(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
     };
 
     if numer == denom {
+        if denom.as_signed_number().is_some_and(|d| d.is_zero()) {
+            return Err(CheckerError::DivOrModByZero);
+        }
         rassert!(
             right.as_signed_number_err()? == 1,
             CheckerError::ExpectedNumber(Rational::new(), right.clone())
-- 
2.43.0


From 203b0bcdd7881ecaa321f8e2d7f9162538ab5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 64/98] fix: return an error for invalid operators in la_mult
 instead of panicking

---
 carcara/src/checker/rules/extras.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3cd72ea..fa5b23e 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -7,7 +7,7 @@ use super::{
 use crate::{
     ast::*,
     checker::{
-        error::{CongruenceError, SubproofError},
+        error::{CongruenceError, LinearArithmeticError, SubproofError},
         rules::assert_operation_len,
     },
     utils::{MultiSet, MultiSetDifference},
@@ -196,7 +196,7 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => match_term_err!((> a b) = term),
             Operator::LessEq => match_term_err!((<= a b) = term),
             Operator::GreaterEq => match_term_err!((>= a b) = term),
-            _ => unreachable!(),
+            _ => Err(LinearArithmeticError::InvalidDisequalityOp(term.clone()).into()),
         }
     }
 
@@ -226,7 +226,7 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => Operator::LessThan,
             Operator::LessEq => Operator::GreaterEq,
             Operator::GreaterEq => Operator::LessEq,
-            _ => unreachable!(),
+            _ => return Err(LinearArithmeticError::InvalidDisequalityOp(original.clone()).into()),
         }
     };
 
-- 
2.43.0


From 89cc570b13621ef486a9fe34b511ea84bd384b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 65/98] fix: add up repeated literals and do not confuse
 literals with the same text in cutting planes

---
 carcara/src/checker/rules/cutting_planes.rs | 44 ++++++++-------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..904336b 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -7,7 +7,10 @@ use crate::checker::Rc;
 use rug::Integer;
 use std::collections::HashMap;
 
-type PbHash = HashMap<String, Integer>;
+/// A pseudo-Boolean literal: a variable, and whether it is negated
+type PbLiteral = (Rc<Term>, bool);
+
+type PbHash = HashMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -39,16 +42,16 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, (literal.clone(), true))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, (literal.clone(), false))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        *hm.entry(literal).or_default() += coeff;
     }
     Ok(hm)
 }
@@ -70,36 +73,23 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
     res
 }
 
-fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
-}
-
-trait NegatedLiterals {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer>;
-}
-
-impl NegatedLiterals for PbHash {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
-            self.get(plain_lit)
-        } else {
-            self.get(&format!("~{}", lit))
-        }
-    }
+fn opposite((var, is_negated): &PbLiteral) -> PbLiteral {
+    (var.clone(), !is_negated)
 }
 
 /// Cancel out opposite coefficients
 fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     let mut slack = Integer::from(0);
     let mut res = pbsum.clone();
-    let mut changes: Vec<(String, Integer)> = Vec::new();
+    let mut changes: Vec<(PbLiteral, Integer)> = Vec::new();
 
     for lit in res.keys() {
-        if is_negated_literal(lit) {
+        let (_, is_negated) = lit;
+        if *is_negated {
             continue;
         }
         let pos = res.get(lit);
-        let neg = res.get_opposite(lit);
+        let neg = res.get(&opposite(lit));
         if neg.is_none() {
             continue;
         }
@@ -112,11 +102,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((opposite(lit), Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((opposite(lit), diff)); // Update ~lit to neg - pos
         }
     }
 
@@ -141,7 +131,7 @@ fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), Ch
 
         if pbsum_b.get(key).is_none() {
             return Err(CheckerError::Explanation(format!(
-                "Key {} of {:?} not found in {:?}",
+                "Key {:?} of {:?} not found in {:?}",
                 key, pbsum_b, pbsum_a
             )));
         }
@@ -219,7 +209,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {}",
+                    "Literal of the conclusion not present in either premises: {:?}",
                     literal
                 )));
             }
-- 
2.43.0


From 23fcf101341d7abad658330873cbf346bfb93ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 66/98] fix: reject negative numbers and malformed premises in
 cutting planes rules

---
 carcara/src/checker/rules/cutting_planes.rs | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 904336b..8905e58 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -229,6 +229,11 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative number would flip the inequality
+    if scalar < 0 {
+        return Err(CheckerError::ExpectedNonnegInteger(args[0].clone()));
+    }
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
@@ -263,6 +268,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -288,10 +294,12 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
     // Unwrap the conclusion inequality
     let (pbsum_c, constant_c) = unwrap_pseudoboolean_inequality(conclusion)?;
 
-    // Verify constants match ceil(c/d) == (c+d-1)/d
+    // Verify constants match ceil(c/d)
+    let expected = constant_p.div_rem_ceil_ref(&divisor);
+    let (expected, _) = <(Integer, Integer)>::from(expected);
     rassert!(
-        (constant_p.clone() + divisor.clone() - 1) / divisor.clone() == constant_c,
-        CheckerError::ExpectedInteger(constant_p / divisor.clone(), conclusion.clone())
+        expected == constant_c,
+        CheckerError::ExpectedInteger(expected, conclusion.clone())
     );
 
     // Verify premise and conclusion share same keys
@@ -300,7 +308,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
     // Verify pseudo-boolean sums match
     for (literal, coeff_p) in pbsum_p {
         if let Some(coeff_c) = pbsum_c.get(&literal) {
-            let expected: Integer = (coeff_p + &divisor - 1) / &divisor;
+            let (expected, _) = coeff_p.div_rem_ceil(divisor.clone());
             rassert!(
                 &expected == coeff_c,
                 CheckerError::ExpectedInteger(expected.clone(), conclusion.clone())
@@ -314,6 +322,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
     assert_num_args(args, 0)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one conclusion
@@ -335,6 +344,12 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     // Verify premise and conclusion share same keys
     assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
 
+    // Saturation is only valid if there are no negative coefficients or constants
+    rassert!(
+        constant_p >= 0 && pbsum_p.values().all(|coeff| *coeff >= 0),
+        CheckerError::ExpectedNonnegInteger(clause.clone())
+    );
+
     // Verify saturation of variables match
     for (literal, coeff_p) in pbsum_p {
         if let Some(coeff_c) = pbsum_c.get(&literal) {
@@ -351,6 +366,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
+    assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
-- 
2.43.0


From 38fd71f66cbae9c74dc77cb5ba8d5df0d8c1725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 67/98] fix: take into account unary minus in cp_normalize

---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 8905e58..ae2a046 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -567,6 +567,11 @@ fn flatten_addition_tree(
 ) -> Result<(Vec<CoeffTimesVar<'_>>, Integer), CheckerError> {
     match term.as_ref() {
         Term::Op(Operator::Add, args) => accumulate_sum(args),
+        Term::Op(Operator::Sub, args) if args.len() == 1 => {
+            let (mut vars, constant) = flatten_addition_tree(&args[0])?;
+            negate_sum(&mut vars);
+            Ok((vars, -constant))
+        }
         Term::Op(Operator::Sub, args) => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
-- 
2.43.0


From 212823f32da702c301a40386533ac1a8652ccb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 68/98] fix: only normalize relations between integers in
 cp_normalize

---
 carcara/src/checker/rules/cutting_planes.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index ae2a046..ca417bb 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -1,7 +1,7 @@
 use super::{
     assert_clause_len, assert_eq, assert_num_args, assert_num_premises, RuleArgs, RuleResult, Term,
 };
-use crate::ast::{Constant, Operator};
+use crate::ast::{Constant, Operator, Sort};
 use crate::checker::error::{CheckerError, EqualityError};
 use crate::checker::Rc;
 use rug::Integer;
@@ -634,7 +634,7 @@ fn check_pb_inequalities(
 }
 
 /// Transform a general summation relation to the normalized form
-pub fn cp_normalize(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+pub fn cp_normalize(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     // (⋈ a b) = (>= sum k)
     let (general_relation, normalized_relation) =
@@ -645,6 +645,15 @@ pub fn cp_normalize(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
     let (relation_operator, left_addition_tree, right_addition_tree) =
         match_supported_relation_err(general_relation)?;
 
+    // The relation must be over integers, as otherwise the strict relations could not be normalized
+    for side in [left_addition_tree, right_addition_tree] {
+        let sort = pool.sort(side);
+        rassert!(
+            sort.as_sort() == Some(&Sort::Int),
+            CheckerError::Explanation(format!("Expected term of integer sort: {side}"))
+        );
+    }
+
     // Split general args into list of added terms
     let (mut left_vars, left_constant) = flatten_addition_tree(left_addition_tree)?;
     let (mut right_vars, right_constant) = flatten_addition_tree(right_addition_tree)?;
-- 
2.43.0


From aa1fde6e9bfbd0d8f8d15373c43c34a8b255da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 69/98] fix: require all bits in the summations of pbblast
 rules

---
 carcara/src/checker/rules/pb_blasting.rs | 68 ++++++++++--------------
 1 file changed, 29 insertions(+), 39 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..80a86f9 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -17,24 +17,7 @@ fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, Checker
 }
 
 // Helper to check that a summation has the expected shape
-fn check_pbblast_sum(
-    pool: &mut dyn TermPool,
-    bitvector: &Rc<Term>,
-    sum: &[Rc<Term>],
-) -> RuleResult {
-    // Obtain the bitvector width from the pool.
-    let width = get_bit_width(bitvector, pool)?;
-
-    // The summation must have at most as many summands as the bitvector has bits.
-    rassert!(
-        width >= sum.len(),
-        CheckerError::Explanation(format!(
-            "Mismatched number of summands {} and bits {}",
-            width,
-            sum.len()
-        ))
-    );
-
+fn check_pbblast_sum(bitvector: &Rc<Term>, sum: &[Rc<Term>]) -> RuleResult {
     for (i, element) in sum.iter().enumerate() {
         // Try to match (* c ((_ @int_of idx) bv))
         let (c, idx, bv) = match match_term!((* c ((_ int_of idx) bv)) = element) {
@@ -82,16 +65,6 @@ fn check_pbblast_sum(
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
 fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
-    rassert!(
-        pbbterm.len() >= sum.len(),
-        CheckerError::Explanation(format!(
-            "Mismatched number of summands {} and bits {}",
-            pbbterm.len(),
-            sum.len()
-        ))
-    );
-
     for (i, element) in sum.iter().enumerate() {
         // Try to match (* c bv))
         let (c, bv) = match match_term!((* c bv) = element) {
@@ -121,21 +94,38 @@ fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> Ru
 /// A helper that checks the two summations that occur in a pseudo–Boolean constraint.
 /// Here, `left_sum` and `right_sum` come from two bitvectors `left_bv` and `right_bv` respectively.
 /// (The overall constraint is something like `(>= (- (+ left_sum) (+ right_sum)) constant)`.)
+///
+/// Both summations must have exactly one summand for each bit of the bitvectors. If `is_signed` is
+/// true, the sign bit is not part of the summations.
 fn check_pbblast_constraint(
     pool: &mut dyn TermPool,
     left_bv: &Rc<Term>,
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    is_signed: bool,
 ) -> RuleResult {
+    let width = get_bit_width(left_bv, pool)?;
+    let expected_len = if is_signed { width - 1 } else { width };
+    for sum in [left_sum, right_sum] {
+        rassert!(
+            sum.len() == expected_len,
+            CheckerError::Explanation(format!(
+                "Mismatched number of summands {} and bits {}",
+                sum.len(),
+                expected_len,
+            ))
+        );
+    }
+
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
         check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
         check_pbblast_sum_short_circuit(pbb_r, right_sum)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(left_bv, left_sum)?;
+        check_pbblast_sum(right_bv, right_sum)
     }
 }
 
@@ -152,7 +142,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +157,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, false)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +173,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +188,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +203,7 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +268,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, true)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +289,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, true)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +310,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, true)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +332,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, true)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From 147e16f7501755e559ab57df9ca4653085ecccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 70/98] fix: do not truncate the bits of constants in
 pbblast_pbbconst

---
 carcara/src/checker/rules/pb_blasting.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 80a86f9..5518ccb 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -385,12 +385,11 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
                 .ok_or(CheckerError::Explanation(format!(
                     "Non-integer term at position {}",
                     i
-                )))?
-                .to_i32_wrapping();
+                )))?;
 
-            match pb {
-                0 => Ok(acc),
-                1 => {
+            match pb.to_i32() {
+                Some(0) => Ok(acc),
+                Some(1) => {
                     let exponent = i.try_into().unwrap();
                     let increment = Integer::i_pow_u(2, exponent);
                     Ok(&acc + Integer::from(increment))
-- 
2.43.0


From 49e8553e1a9ad2cb97bffd32bd6d742655c8f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 71/98] fix: check for captured variables in pbblast rules

---
 carcara/src/checker/rules/pb_blasting.rs | 27 ++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 5518ccb..2e6da05 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -434,6 +434,21 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
     }
 }
 
+/// Checks that a term does not contain the variable bound by a choice term
+fn assert_not_captured(
+    pool: &mut dyn TermPool,
+    name: &str,
+    sort: &Rc<Term>,
+    term: &Rc<Term>,
+) -> RuleResult {
+    let var = pool.add(Term::new_var(name, sort.clone()));
+    rassert!(
+        !pool.free_vars(term).contains(&var),
+        CheckerError::Explanation(format!("Variable {name} is captured in {term}"))
+    );
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
     let ((x, y), bit_constraints) =
@@ -448,6 +463,8 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
         // Check z -> Int
         let (z_name, z_type) = &bindings[0];
+        assert_not_captured(pool, z_name, z_type, xi)?;
+        assert_not_captured(pool, z_name, z_type, yi)?;
         rassert!(
             z_name == "z",
             CheckerError::Explanation(format!("Expected {z_name} to be \"z\""))
@@ -511,6 +528,8 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
         // Check z -> Int
         let (z_name, z_type) = &bindings[0];
+        assert_not_captured(pool, z_name, z_type, xi)?;
+        assert_not_captured(pool, z_name, z_type, yi)?;
         rassert!(
             z_name == "z",
             CheckerError::Explanation(format!("Expected {z_name} to be \"z\""))
@@ -560,6 +579,10 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
+    let int_sort = pool.add(Term::Sort(Sort::Int));
+    assert_not_captured(pool, "z", &int_sort, x)?;
+    assert_not_captured(pool, "z", &int_sort, y)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= (+ {x.clone()} {y.clone()}) (let z Int))
@@ -606,6 +629,10 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
+    let int_sort = pool.add(Term::Sort(Sort::Int));
+    assert_not_captured(pool, "z", &int_sort, x)?;
+    assert_not_captured(pool, "z", &int_sort, y)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= {x.clone()} (let z Int))
-- 
2.43.0


From 834a3a3816f69654635078d8c2ed78006f3ca7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 72/98] fix: check the length of the clause in pbblast rules
 instead of panicking

---
 carcara/src/checker/rules/pb_blasting.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 2e6da05..f59495b 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -1,4 +1,4 @@
-use super::{assert_eq, assert_num_args, RuleArgs, RuleResult};
+use super::{assert_clause_len, assert_eq, assert_num_args, RuleArgs, RuleResult};
 use crate::{
     ast::{Binder, Rc, Sort, Term, TermPool},
     checker::{error::CheckerError, rules::cutting_planes::split_summation},
@@ -133,6 +133,7 @@ fn check_pbblast_constraint(
 /// The expected shape is:
 ///    `(= (= x y) (= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (= x y) (= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -149,6 +150,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 /// The expected shape is:
 ///    `(= (bvult x y) (>= (- (+ sum_y) (+ sum_x)) 1))`
 pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), _)) =
         match_term_err!((= (bvult x y) (>= (- sum_y sum_x) 1)) = &conclusion[0])?;
 
@@ -165,6 +167,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvugt x y) (>= (- (+ sum_x) (+ sum_y)) 1))`
 pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (bvugt x y) (>= (- sum_x sum_y) 1)) = &conclusion[0])?;
 
@@ -181,6 +184,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvuge x y) (>= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), ())) =
         match_term_err!((= (bvuge x y) (>= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -196,6 +200,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvule x y) (>= (- (+ sum_y) (+ sum_x)) 0))`
 pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), ())) =
         match_term_err!((= (bvule x y) (>= (- sum_y sum_x) 0)) = &conclusion[0])?;
 
@@ -255,6 +260,7 @@ fn check_pbblast_signed_relation(n: usize, sign: &Rc<Term>, bitvector: &Rc<Term>
 /// The expected shape is:
 ///    `(= (bvslt x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 1))`
 pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvslt x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -276,6 +282,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsgt x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 1))`
 pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsgt x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -297,6 +304,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsge x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 0))`
 pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsge x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -318,6 +326,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsle x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 0))`
 pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvsle x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -337,6 +346,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the blasting of a bitvector variable
 pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (x, pbs) = match_term_err!((= x (pbbterm ...)) = &conclusion[0])?;
 
     for (i, pb) in pbs.iter().enumerate() {
@@ -361,6 +371,7 @@ pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 
 /// Implements the blasting of a constant
 pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (bv, pbs) = match_term_err!((= bv (pbbterm ...)) = &conclusion[0])
         .map_err(|_| CheckerError::Explanation("Malformed @pbbterm equality".into()))?;
 
@@ -451,6 +462,7 @@ fn assert_not_captured(
 
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -516,6 +528,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the bitwise and operation.
 pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -574,6 +587,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvxor rule
 pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
@@ -624,6 +638,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvand rule
 pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
-- 
2.43.0


From afbe0ca359d332ee5dd0dae8cf65964902a58ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 73/98] fix: return an error for drup arguments that are not
 clauses instead of panicking

---
 carcara/src/drup.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 9be6c0a..586acf9 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -40,6 +40,8 @@ pub enum DrupFormatError {
     CheckingRatInEmptyClause,
     #[error("the clause isn't in RAT format")]
     NotInRatFormat,
+    #[error("expected the arguments to be clauses or deletions of clauses")]
+    ExpectedClause,
     #[error("a proof that uses RAT can only conclude the empty clause")]
     NonEmptyRatConclusion,
 }
@@ -239,17 +241,15 @@ pub fn check_drup(
     let mut used_rat = false;
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
-            let clause_term = if terms.is_empty() {
-                terms[0].clone()
-            } else {
-                build_term!(pool, (cl[terms.to_vec()]))
-            };
+            let clause_term = build_term!(pool, (cl[terms.to_vec()]));
             premises.remove(&hash_term(pool, &clause_term));
             drup_history.push(DRupProofAction::Delete(clause_term));
             continue;
         }
 
-        let terms = match_term!((cl ...) = &t).unwrap();
+        let Some(terms) = match_term!((cl ...) = &t) else {
+            return Err(DrupFormatError::ExpectedClause);
+        };
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
-- 
2.43.0


From 18958fb1dec2370649168cccfcb175e7d769eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 74/98] fix: return an error for equalities that are not
 between bit-vectors in bitblast_equal

---
 carcara/src/checker/rules/bitvectors.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/bitvectors.rs b/carcara/src/checker/rules/bitvectors.rs
index 1f36650..4ee9f46 100644
--- a/carcara/src/checker/rules/bitvectors.rs
+++ b/carcara/src/checker/rules/bitvectors.rs
@@ -526,7 +526,9 @@ pub fn equality(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     let ((x, y), res) = match_term_err!((= (= x y) res) = &conclusion[0])?;
 
     let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
+        return Err(CheckerError::Explanation(format!(
+            "Expected an equality between bitvectors, but {x} is not a bitvector"
+        )));
     };
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
-- 
2.43.0


From 7c5c88004fe14ec07623665a3d3c12849ecfeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 75/98] fix: compare all coefficients in cutting planes rules

---
 carcara/src/checker/rules/cutting_planes.rs | 120 +++++---------------
 1 file changed, 27 insertions(+), 93 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index ca417bb..6755102 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -118,37 +118,21 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     (res, slack)
 }
 
-/// Checks that every key in ``pbsum_a`` is present in ``pbsum_b``
-/// ha ⊆ hb
-fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), CheckerError> {
-    for key in pbsum_a.keys() {
-        let val = pbsum_a.get(key).unwrap();
-
-        // Zero coefficient is ignored.
-        if val == &Integer::from(0) {
-            continue;
-        }
-
-        if pbsum_b.get(key).is_none() {
-            return Err(CheckerError::Explanation(format!(
-                "Key {:?} of {:?} not found in {:?}",
-                key, pbsum_b, pbsum_a
-            )));
-        }
+/// Checks that every literal has the same coefficient in both sums. A literal that is missing from a
+/// sum has coefficient zero
+fn assert_pbsum_eq(expected: &PbHash, got: &PbHash, conclusion: &Rc<Term>) -> RuleResult {
+    let zero = Integer::new();
+    for literal in expected.keys().chain(got.keys()) {
+        let expected_coeff = expected.get(literal).unwrap_or(&zero);
+        let coeff = got.get(literal).unwrap_or(&zero);
+        rassert!(
+            expected_coeff == coeff,
+            CheckerError::ExpectedInteger(expected_coeff.clone(), conclusion.clone())
+        );
     }
     Ok(())
 }
 
-fn assert_pbsum_same_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), CheckerError> {
-    // All keys in A are in B
-    assert_pbsum_subset_keys(pbsum_a, pbsum_b)?;
-
-    // All keys in B are in A
-    assert_pbsum_subset_keys(pbsum_b, pbsum_a)?;
-
-    Ok(())
-}
-
 pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     // Check there is exactly two premises
     assert_num_premises(premises, 2)?;
@@ -191,32 +175,8 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
         ))
     );
 
-    // Verify premise and conclusion share same keys
-    assert_pbsum_same_keys(&pbsum_lr_reduced, &pbsum_c)?;
-
     // Verify pseudo-boolean sums match
-    for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
-        match pbsum_lr_reduced.get(literal) {
-            Some(coeff_lr_reduced) => {
-                rassert!(
-                    coeff_lr_reduced == coeff_c,
-                    CheckerError::ExpectedInteger(coeff_lr_reduced.clone(), conclusion.clone())
-                );
-            }
-            // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
-            _ => {
-                return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {:?}",
-                    literal
-                )));
-            }
-        }
-    }
-
-    Ok(())
+    assert_pbsum_eq(&pbsum_lr_reduced, &pbsum_c, conclusion)
 }
 
 pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
@@ -250,20 +210,12 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
         CheckerError::ExpectedInteger(scalar.clone() * constant_p, conclusion.clone())
     );
 
-    // Verify premise and conclusion share same keys
-    assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
-
     // Verify pseudo-boolean sums match
-    for (literal, coeff_p) in pbsum_p {
-        if let Some(coeff_c) = pbsum_c.get(&literal) {
-            let expected = &scalar * coeff_p;
-            rassert!(
-                &expected == coeff_c,
-                CheckerError::ExpectedInteger(expected.clone(), conclusion.clone())
-            );
-        }
-    }
-    Ok(())
+    let expected: PbHash = pbsum_p
+        .into_iter()
+        .map(|(literal, coeff_p)| (literal, &scalar * coeff_p))
+        .collect();
+    assert_pbsum_eq(&expected, &pbsum_c, conclusion)
 }
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
@@ -302,21 +254,12 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
         CheckerError::ExpectedInteger(expected, conclusion.clone())
     );
 
-    // Verify premise and conclusion share same keys
-    assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
-
     // Verify pseudo-boolean sums match
-    for (literal, coeff_p) in pbsum_p {
-        if let Some(coeff_c) = pbsum_c.get(&literal) {
-            let (expected, _) = coeff_p.div_rem_ceil(divisor.clone());
-            rassert!(
-                &expected == coeff_c,
-                CheckerError::ExpectedInteger(expected.clone(), conclusion.clone())
-            );
-        }
-    }
-
-    Ok(())
+    let expected: PbHash = pbsum_p
+        .into_iter()
+        .map(|(literal, coeff_p)| (literal, coeff_p.div_rem_ceil(divisor.clone()).0))
+        .collect();
+    assert_pbsum_eq(&expected, &pbsum_c, conclusion)
 }
 
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
@@ -341,9 +284,6 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
         CheckerError::ExpectedInteger(constant_p.clone(), conclusion.clone())
     );
 
-    // Verify premise and conclusion share same keys
-    assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
-
     // Saturation is only valid if there are no negative coefficients or constants
     rassert!(
         constant_p >= 0 && pbsum_p.values().all(|coeff| *coeff >= 0),
@@ -351,17 +291,11 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     );
 
     // Verify saturation of variables match
-    for (literal, coeff_p) in pbsum_p {
-        if let Some(coeff_c) = pbsum_c.get(&literal) {
-            let expected = Ord::min(&constant_p, &coeff_p);
-            rassert!(
-                expected == coeff_c,
-                CheckerError::ExpectedInteger(expected.clone(), conclusion.clone())
-            );
-        }
-    }
-
-    Ok(())
+    let expected: PbHash = pbsum_p
+        .into_iter()
+        .map(|(literal, coeff_p)| (literal, Ord::min(constant_p.clone(), coeff_p)))
+        .collect();
+    assert_pbsum_eq(&expected, &pbsum_c, conclusion)
 }
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
-- 
2.43.0


From f04722490d4401c27a9d158a6679695b67823c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 76/98] fix: only accept pseudo-Boolean variables as literals
 in cutting planes

---
 carcara/src/checker/rules/cutting_planes.rs | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 6755102..acec528 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -50,6 +50,7 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
 
+        assert_is_pb_variable(&literal.0)?;
         let coeff = coeff.as_integer_err()?;
         *hm.entry(literal).or_default() += coeff;
     }
@@ -298,6 +299,27 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     assert_pbsum_eq(&expected, &pbsum_c, conclusion)
 }
 
+/// Checks that a term can be the variable of a literal. Constants, sums, and negative multiples can't
+/// be pseudo-Boolean variables
+fn assert_is_pb_variable(term: &Rc<Term>) -> RuleResult {
+    let is_variable = match term.as_ref() {
+        Term::Const(_) => false,
+        Term::Op(Operator::Mult, args) => {
+            !args.iter().any(|a| a.as_integer().is_some_and(|c| c < 0))
+        }
+        Term::Op(op, _) => !matches!(
+            op,
+            Operator::Add | Operator::Sub | Operator::IntDiv | Operator::Mod | Operator::Abs
+        ),
+        _ => true,
+    };
+    rassert!(
+        is_variable,
+        CheckerError::Explanation(format!("Expected a pseudo-Boolean variable: {term}"))
+    );
+    Ok(())
+}
+
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
     assert_clause_len(conclusion, 1)?;
@@ -308,6 +330,7 @@ pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResu
             c.as_integer_err()? == 1,
             CheckerError::ExpectedInteger(1.into(), c.clone()),
         );
+        assert_is_pb_variable(l)?;
         let neg_l = build_term!(pool,(- 1 {l.clone()}));
         return assert_eq(&neg_l, &args[0]);
     }
@@ -316,13 +339,16 @@ pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResu
             c.as_integer_err()? == 1,
             CheckerError::ExpectedInteger(1.into(), c.clone()),
         );
+        assert_is_pb_variable(l)?;
         return assert_eq(l, &args[0]);
     }
     if let Some(((_, l), _)) = match_term!((>= (- 1 l) 0) = &conclusion[0]) {
+        assert_is_pb_variable(l)?;
         let neg_l = build_term!(pool,(- 1 {l.clone()}));
         return assert_eq(&neg_l, &args[0]);
     }
     if let Some((l, _)) = match_term!((>= l 0) = &conclusion[0]) {
+        assert_is_pb_variable(l)?;
         return assert_eq(l, &args[0]);
     }
     Err(CheckerError::Explanation(
-- 
2.43.0


From 81385d1423d318f0992c6761c59eccd6c330ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 77/98] fix: drop monomials whose coefficient is zero modulo
 the width in poly_simp

---
 carcara/src/checker/rules/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/checker/rules/polynomial.rs b/carcara/src/checker/rules/polynomial.rs
index 72f0744..5285669 100644
--- a/carcara/src/checker/rules/polynomial.rs
+++ b/carcara/src/checker/rules/polynomial.rs
@@ -155,6 +155,7 @@ impl Polynomial {
             }
             *coeff = coeff.numer().clone().modulo(n).into();
         }
+        self.0.retain(|_, coeff| !coeff.is_zero());
         if self.1.is_integer() {
             self.1 = self.1.numer().clone().modulo(n).into();
             Some(self)
-- 
2.43.0


From 70e485bf659b434f647d3a75e8d47d6e835f61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 78/98] fix: do not print debugging output when checking
 re_concat_unfold_pos

---
 carcara/src/checker/rules/strings.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1bc6fbb..edba243 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1323,9 +1323,6 @@ pub fn re_concat_unfold_pos(RuleArgs { premises, conclusion, pool, .. }: RuleArg
         _ => Err(CheckerError::TermOfWrongForm("(re.++ ...)", r.clone())),
     }?;
 
-    println!("concluded: {}", &conclusion[0]);
-    println!("epxanded: {}", &expanded);
-
     assert_eq(&conclusion[0], &expanded)
 }
 
-- 
2.43.0


From 1e160de9574fb7c39d6654d59a10798f1dc197ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 79/98] fix: measure string constants in characters instead of
 bytes

---
 carcara/src/checker/rules/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index edba243..7e04583 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -285,7 +285,7 @@ fn strip_prefix_or_suffix(
 /// constant of size one.
 fn string_check_length_one(term: Rc<Term>) -> Result<(), CheckerError> {
     if let Term::Const(Constant::String(s)) = term.as_ref() {
-        if s.len() == 1 {
+        if s.chars().count() == 1 {
             return Ok(());
         }
     }
@@ -552,7 +552,7 @@ fn str_fixed_len_re(pool: &mut dyn TermPool, r: Rc<Term>) -> Result<usize, Check
         Term::Op(Operator::StrToRe, args) => {
             let s_1 = args.first().unwrap();
             match s_1.as_ref() {
-                Term::Const(Constant::String(s)) => Ok(s.len()),
+                Term::Const(Constant::String(s)) => Ok(s.chars().count()),
                 _ => Err(CheckerError::LengthCannotBeEvaluated(r.clone())),
             }
         }
-- 
2.43.0


From df51d30181d1f036007761582c3a572f3bc9f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 80/98] fix: check for captured variables in re_unfold_neg

---
 carcara/src/checker/rules/strings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 7e04583..3e99120 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1335,6 +1335,12 @@ pub fn re_unfold_neg(RuleArgs { premises, conclusion, pool, .. }: RuleArgs) -> R
 
     let int_sort = pool.add(Term::Sort(Sort::Int));
     let l = pool.add(Term::new_var("L", int_sort.clone()));
+    for term in [t, r] {
+        rassert!(
+            !pool.free_vars(term).contains(&l),
+            CheckerError::Explanation(format!("Variable L is captured in {term}"))
+        );
+    }
     let pref = build_skolem_prefix(pool, t.clone(), l.clone());
     let suff = build_skolem_suffix_rem(pool, t.clone(), l.clone());
 
-- 
2.43.0


From 46fd26f3b17f18bb42e74128d2dac51e402714ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 81/98] fix: only decompose strings at constant non-negative
 positions in string_decompose

---
 carcara/src/checker/rules/strings.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 3e99120..5ccb77e 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1136,6 +1136,13 @@ pub fn string_decompose(
     let rev = args[0].as_bool_err()?;
     let (t, n) = match_term_err!((>= (strlen t) n) = term)?;
 
+    // There is no prefix or suffix of negative length
+    let n_value = n.as_integer_err()?;
+    rassert!(
+        !n_value.is_negative(),
+        CheckerError::Explanation(format!("Expected a non-negative length, got {n}"))
+    );
+
     match_term_err!(
         (and
             (= t x)
-- 
2.43.0


From 2c00c8c20eb59d7db1ab8dec9d6bf80d85070b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 82/98] fix: only propagate string constants in
 concat_cprop_prefix and concat_cprop_suffix, and only from the ends

---
 carcara/src/checker/rules/strings.rs | 58 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 5ccb77e..f605dbe 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -85,6 +85,22 @@ fn overlap(s: Vec<Rc<Term>>, t: Vec<Rc<Term>>) -> usize {
     }
 }
 
+/// Flattens a term that must be a String constant, possibly written as a concatenation of constants.
+fn flatten_constant(
+    pool: &mut dyn TermPool,
+    term: &Rc<Term>,
+) -> Result<Vec<Rc<Term>>, CheckerError> {
+    let flat = string_concat_flatten(pool, term.clone());
+    if flat.iter().all(|t| t.is_const()) {
+        Ok(flat)
+    } else {
+        Err(CheckerError::TermOfWrongForm(
+            "string constant",
+            term.clone(),
+        ))
+    }
+}
+
 /// A function to standardize String constants and `str.++` applications
 /// across a term.
 ///
@@ -1039,26 +1055,23 @@ pub fn concat_cprop_prefix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
 
     assert_eq(&args_t[0], t_1)?;
 
-    let empty = pool.add(Term::new_string(""));
-    let ss = match s.as_ref() {
-        Term::Const(Constant::String(text)) => {
-            if text.is_empty() {
-                return Err(CheckerError::ExpectedToNotBeEmpty(s.clone()));
-            }
-            vec![s.clone(), empty.clone()]
-        }
-        Term::Op(Operator::StrConcat, args) => args.clone(),
+    let s_1 = match s.as_ref() {
+        Term::Const(Constant::String(_)) => s,
+        Term::Op(Operator::StrConcat, args) => args.first().unwrap(),
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let sc = string_concat_flatten(pool, ss[0].clone());
+    let sc = flatten_constant(pool, s_1)?;
+    if sc.is_empty() {
+        return Err(CheckerError::ExpectedToNotBeEmpty(s_1.clone()));
+    }
     let sc_tail = sc[1..].to_vec();
 
-    let t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let t_2_flat = flatten_constant(pool, &args_t[1])?;
 
     let v = 1 + overlap(sc_tail.clone(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_skolem_prefix(pool, ss[0].clone(), v);
+    let oc = build_skolem_prefix(pool, s_1.clone(), v);
     let oc_len = build_term!(pool, (strlen {oc.clone()}));
 
     let r = build_skolem_suffix_rem(pool, t_1.clone(), oc_len);
@@ -1085,28 +1098,25 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
 
     assert_eq(&args_t[2], t_2)?;
 
-    let empty = pool.add(Term::new_string(""));
-    let ss = match s.as_ref() {
-        Term::Const(Constant::String(text)) => {
-            if text.is_empty() {
-                return Err(CheckerError::ExpectedToNotBeEmpty(s.clone()));
-            }
-            vec![empty.clone(), s.clone()]
-        }
-        Term::Op(Operator::StrConcat, args) => args.clone(),
+    let s_2 = match s.as_ref() {
+        Term::Const(Constant::String(_)) => s,
+        Term::Op(Operator::StrConcat, args) => args.last().unwrap(),
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let mut sc = string_concat_flatten(pool, ss[1].clone());
+    let mut sc = flatten_constant(pool, s_2)?;
+    if sc.is_empty() {
+        return Err(CheckerError::ExpectedToNotBeEmpty(s_2.clone()));
+    }
     sc.reverse();
     let sc_tail = &sc[1..];
 
-    let mut t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let mut t_2_flat = flatten_constant(pool, &args_t[1])?;
     t_2_flat.reverse();
 
     let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_str_suffix_len(pool, ss[1].clone(), v);
+    let oc = build_str_suffix_len(pool, s_2.clone(), v);
 
     let rhs = build_term!(pool, (- (strlen {t_2.clone()}) (strlen {oc.clone()})));
     let r = build_skolem_prefix(pool, t_2.clone(), rhs.clone());
-- 
2.43.0


From ab798ef722c2de2a1e390c2c055a31ea4afbaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 83/98] fix: an empty disjunction left by an empty RARE list is
 false, and an empty conjunction is true

---
 carcara/src/rare/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/rare/mod.rs b/carcara/src/rare/mod.rs
index cc8fc2a..b9793ce 100644
--- a/carcara/src/rare/mod.rs
+++ b/carcara/src/rare/mod.rs
@@ -9,8 +9,8 @@ pub fn get_rules() -> Vec<(RewriteTerm, RewriteTerm)> {
     vec![
         build_equation!((RareList ..x..) ~> x),
         build_equation!((Or true) ~> true),
-        build_equation!((Or) ~> true),
-        build_equation!((And) ~> false),
+        build_equation!((Or) ~> false),
+        build_equation!((And) ~> true),
         build_equation!((And false) ~> false),
     ]
 }
-- 
2.43.0


From 0408b0c22ca4b6261cd5c7a6d8be35f6a95a9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 84/98] fix: a RARE list is only given to list parameters, and
 an argument that is not a parameter is an error

---
 carcara/src/checker/rules/rare.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index 0a48c6e..de09e37 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{Constant, Substitution, Term},
+    ast::{rare_rules::AttributeParameters, Constant, Operator, Substitution, Term},
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
@@ -40,10 +40,21 @@ pub fn check_rare(
         let mut map = IndexMap::new();
 
         for arg in rare_term.arguments.iter().rev() {
-            let arg_sort = rare_term.parameters.get(arg).unwrap();
+            let Some(param) = rare_term.parameters.get(arg) else {
+                return Err(CheckerError::RareArgumentNotFound(arg.clone()));
+            };
+            let value = arguments.next().unwrap();
+
+            // Only a parameter declared as a list can stand for more (or less) than one term
+            if matches!(value.as_ref(), Term::Op(Operator::RareList, _))
+                && param.attribute != AttributeParameters::List
+            {
+                return Err(CheckerError::RareArgumentIsNotRareList(arg.clone()));
+            }
+
             map.insert(
-                pool.add(Term::Var(arg.clone(), arg_sort.term.clone())),
-                arguments.next().unwrap().clone(),
+                pool.add(Term::Var(arg.clone(), param.term.clone())),
+                value.clone(),
             );
         }
 
-- 
2.43.0


From 6061178c804b5737ed1bf2a1a15b552cc41120c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 85/98] fix: a RARE list can be given to a list parameter of
 any sort

---
 carcara/src/ast/substitution.rs   | 10 ++++++++++
 carcara/src/checker/rules/rare.rs | 32 ++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 68a693e..cad3063 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -88,6 +88,16 @@ impl Substitution {
         })
     }
 
+    /// Constructs a new substitution without checking the sorts of its mappings. This is used when a
+    /// variable stands for a list of terms, which has a different sort than the variable itself.
+    pub(crate) fn new_unchecked(map: IndexMap<Rc<Term>, Rc<Term>>) -> Self {
+        Self {
+            map,
+            should_be_renamed: None,
+            cache: IndexMap::new(),
+        }
+    }
+
     /// Returns `true` if the substitution is empty.
     pub fn is_empty(&self) -> bool {
         self.map.is_empty()
diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index de09e37..499ae69 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,7 +1,10 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{rare_rules::AttributeParameters, Constant, Operator, Substitution, Term},
+    ast::{
+        rare_rules::AttributeParameters, Constant, Operator, Sort, Substitution, SubstitutionError,
+        Term,
+    },
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
@@ -46,16 +49,23 @@ pub fn check_rare(
             let value = arguments.next().unwrap();
 
             // Only a parameter declared as a list can stand for more (or less) than one term
-            if matches!(value.as_ref(), Term::Op(Operator::RareList, _))
-                && param.attribute != AttributeParameters::List
-            {
-                return Err(CheckerError::RareArgumentIsNotRareList(arg.clone()));
-            }
+            let values = match value.as_ref() {
+                Term::Op(Operator::RareList, _) if param.attribute != AttributeParameters::List => {
+                    return Err(CheckerError::RareArgumentIsNotRareList(arg.clone()));
+                }
+                Term::Op(Operator::RareList, elements) => elements.as_slice(),
+                _ => std::slice::from_ref(value),
+            };
 
-            map.insert(
-                pool.add(Term::Var(arg.clone(), param.term.clone())),
-                value.clone(),
-            );
+            let variable = pool.add(Term::Var(arg.clone(), param.term.clone()));
+            if !param.term.as_sort().is_some_and(Sort::is_polymorphic) {
+                for v in values {
+                    if pool.sort(v) != param.term {
+                        return Err(SubstitutionError::DifferentSorts(variable, v.clone()).into());
+                    }
+                }
+            }
+            map.insert(variable, value.clone());
         }
 
         if rare_term.premises.len() != premises.len() {
@@ -65,7 +75,7 @@ pub fn check_rare(
         }
 
         let mut rare_premises = rare_term.premises.iter();
-        let mut subst = Substitution::new(pool, map.clone())?;
+        let mut subst = Substitution::new_unchecked(map);
 
         for premise in premises {
             let premise = get_premise_term(premise)?;
-- 
2.43.0


From ff2b80e822866334ac6b61434f6d4cfac11fc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 86/98] fix: do not insert solver proofs whose assumptions
 cannot be discharged

---
 carcara/src/elaborator/lia_generic.rs | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 35bc764..8f9f7c5 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -69,13 +69,19 @@ pub fn lia_generic(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<Pr
         }
     };
 
-    Some(insert_solver_proof(
+    let result = insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
         &step.id,
         step.depth,
-    ))
+    );
+    if result.is_none() {
+        log::warn!(
+            "failed to elaborate `lia_generic` step: solver proof has an unexpected assumption"
+        );
+    }
+    result
 }
 
 fn get_solver_proof(
@@ -165,13 +171,15 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
     })
 }
 
-fn insert_solver_proof(
+/// Builds a proof of `conclusion` from a solver's refutation of the negation of its literals. Returns
+/// `None` if the refutation makes an assumption which is not exactly the negation of one of them.
+pub(super) fn insert_solver_proof(
     pool: &mut PrimitivePool,
     commands: Vec<ProofCommand>,
     conclusion: &[Rc<Term>],
     root_id: &str,
     depth: usize,
-) -> Rc<ProofNode> {
+) -> Option<Rc<ProofNode>> {
     let proof = ProofNodeForest::from_commands(commands)
         .0
         .into_iter()
@@ -189,7 +197,7 @@ fn insert_solver_proof(
     clause.push(pool.bool_false());
 
     let proof = increase_subproof_depth(proof, depth + 1, &subproof_id);
-    let mut subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
+    let used_assumptions = proof.get_assumptions_of_depth(depth + 1);
 
     // every element of conclusion must be an assumption in the
     // proof. No other assumptions must exist in the proof. If there
@@ -198,7 +206,7 @@ fn insert_solver_proof(
     // create new assumptions to account for them. Regardless, we
     // rebuild the subproof_assumptions vector to guarantee that it is
     // the same order of the literals in the conclusion.
-    let assume_term_to_node: HashMap<&Rc<Term>, Rc<ProofNode>> = subproof_assumptions
+    let assume_term_to_node: HashMap<&Rc<Term>, Rc<ProofNode>> = used_assumptions
         .iter()
         .map(|node| {
             let (_, _, term) = node.as_assume().unwrap();
@@ -212,7 +220,7 @@ fn insert_solver_proof(
     // a single assumption for, we take care to only retrieve an
     // existing assumption once
     let mut covered = IndexSet::new();
-    subproof_assumptions = conclusion
+    let subproof_assumptions: Vec<_> = conclusion
         .iter()
         .map(|term| {
             let term = build_term!(pool, (not {term.clone()}));
@@ -231,6 +239,14 @@ fn insert_solver_proof(
         })
         .collect();
 
+    // An assumption that is not discharged would be left as a premise of the subproof
+    if used_assumptions
+        .iter()
+        .any(|node| !subproof_assumptions.contains(node))
+    {
+        return None;
+    }
+
     let last_step = Rc::new(ProofNode::Step(StepNode {
         id: subproof_id,
         depth: depth + 1,
@@ -284,12 +300,12 @@ fn insert_solver_proof(
     premises.extend(not_not_steps);
     premises.push(false_step);
 
-    Rc::new(ProofNode::Step(StepNode {
+    Some(Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth,
         clause: conclusion.to_vec(),
         rule: "resolution".to_owned(),
         premises,
         ..Default::default()
-    }))
+    })))
 }
-- 
2.43.0


From 0a3fd3847b2b2de95a1e4efded20b4161db520c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 87/98] fix: discharge assumptions in the order of the clause
 when filling holes

---
 carcara/src/elaborator/hole.rs | 118 +++------------------------------
 1 file changed, 8 insertions(+), 110 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 6f07ce6..9fc98d5 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -82,13 +82,19 @@ pub fn hole(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<ProofNode
         }
     };
 
-    Some(insert_solver_proof(
+    let result = lia_generic::insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
         &step.id,
         step.depth,
-    ))
+    );
+    if result.is_none() {
+        log::warn!(
+            "failed to elaborate `all_simplify` step: solver proof has an unexpected assumption"
+        );
+    }
+    result
 }
 
 fn get_solver_proof(
@@ -159,111 +165,3 @@ fn parse_and_check_solver_proof(
     let res = checker::ProofChecker::new(pool, &rules, config).check(&problem, &proof)?;
     Ok((proof.commands, res))
 }
-
-fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) -> Rc<ProofNode> {
-    proof.mutate(|_, node, _| {
-        let node = match node.as_ref().clone() {
-            ProofNode::Assume { id, depth, term } => ProofNode::Assume {
-                id: format!("{}.{}", prefix, id),
-                depth: depth + delta,
-                term,
-            },
-            ProofNode::Step(mut s) => {
-                s.id = format!("{}.{}", prefix, s.id);
-                s.depth += delta;
-                ProofNode::Step(s)
-            }
-            ProofNode::Subproof(_) => unreachable!(),
-        };
-        Rc::new(node)
-    })
-}
-
-fn insert_solver_proof(
-    pool: &mut PrimitivePool,
-    commands: Vec<ProofCommand>,
-    conclusion: &[Rc<Term>],
-    root_id: &str,
-    depth: usize,
-) -> Rc<ProofNode> {
-    let proof = ProofNodeForest::from_commands(commands)
-        .0
-        .into_iter()
-        .find(|node| node.clause().is_empty())
-        .expect("solver proof does not conclude empty clause");
-
-    let mut ids = IdHelper::new(root_id);
-    let subproof_id = ids.next_id();
-
-    let mut clause: Vec<_> = conclusion
-        .iter()
-        .map(|l| build_term!(pool, (not (not {l.clone()}))))
-        .collect();
-
-    clause.push(pool.bool_false());
-
-    let proof = increase_subproof_depth(proof, depth + 1, root_id);
-    let subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
-
-    let last_step = Rc::new(ProofNode::Step(StepNode {
-        id: subproof_id,
-        depth: depth + 1,
-        clause: clause.clone(),
-        rule: "subproof".to_owned(),
-        premises: Vec::new(),
-        args: Vec::new(),
-        discharge: subproof_assumptions,
-        previous_step: Some(proof),
-    }));
-
-    let subproof = Rc::new(ProofNode::Subproof(SubproofNode {
-        last_step,
-        args: Vec::new(),
-        // Since the subproof was inserted from the solver proof, it cannot reference anything
-        // outside of it.
-        outbound_premises: Vec::new(),
-        extra_steps: Vec::new(),
-    }));
-
-    let not_not_steps: Vec<_> = clause[..clause.len() - 1]
-        .iter()
-        .map(|term| {
-            let clause = vec![
-                build_term!(pool, (not {term.clone()})),
-                term.remove_negation()
-                    .unwrap()
-                    .remove_negation()
-                    .unwrap()
-                    .clone(),
-            ];
-            Rc::new(ProofNode::Step(StepNode {
-                id: ids.next_id(),
-                depth,
-                clause,
-                rule: "not_not".to_owned(),
-                ..Default::default()
-            }))
-        })
-        .collect();
-
-    let false_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: vec![build_term!(pool, (not {pool.bool_false()}))],
-        rule: "false".to_owned(),
-        ..Default::default()
-    }));
-
-    let mut premises = vec![subproof];
-    premises.extend(not_not_steps);
-    premises.push(false_step);
-
-    Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: conclusion.to_vec(),
-        rule: "resolution".to_owned(),
-        premises,
-        ..Default::default()
-    }))
-}
-- 
2.43.0


From ae601d2fbca852d7d433bb1a64a35b18870710b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 88/98] fix: keep the results of a benchmark when a file cannot
 be parsed

---
 cli/src/benchmarking.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..8788631 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,14 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
-
     let total = Instant::now();
 
     let parsing = Instant::now();
@@ -46,6 +38,14 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
-- 
2.43.0


From 5da232327a453b8fa9c0b7782243d9dffa3f701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 89/98] fix: do not elaborate invalid proofs when benchmarking

---
 cli/src/benchmarking.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 8788631..aca806d 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -53,7 +53,11 @@ fn run_job<T: CollectResults + Default + Send>(
     let checking_result = checker.check_with_stats(&problem, &proof, &mut checker_stats);
     let checking = checking.elapsed();
 
-    let (elaboration, pipeline_durations) = if let Some((config, pipeline)) = elaborator_config {
+    // An invalid proof cannot be elaborated
+    let (elaboration, pipeline_durations) = if checking_result.is_err() {
+        let num_stages = elaborator_config.map_or(0, |(_, pipeline)| pipeline.len());
+        (Duration::ZERO, vec![Duration::ZERO; num_stages])
+    } else if let Some((config, pipeline)) = elaborator_config {
         let elaboration = Instant::now();
         let node = ast::ProofNodeForest::from_commands(proof.commands);
         let (elaborated, pipeline_durations) =
-- 
2.43.0


From 9feb2bd0ec1fd3c3d44c39394540c686888fd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 90/98] fix: report errors of a benchmark even if no file could
 be parsed

---
 cli/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 9ffb92a..0679e59 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -657,18 +657,17 @@ fn bench_command(options: BenchCommandOptions) -> CliResult<()> {
         options.checking.into(),
         options.elaborate.then(|| options.elaboration.into()),
     );
-    if results.is_empty() {
-        println!("no benchmark data collected");
-        return Ok(());
-    }
-
     if results.had_error {
         println!("invalid");
     } else if results.is_holey {
         println!("holey");
-    } else {
+    } else if !results.is_empty() {
         println!("valid");
     }
+    if results.is_empty() {
+        println!("no benchmark data collected");
+        return Ok(());
+    }
     results.print(options.sort_by_total);
     Ok(())
 }
-- 
2.43.0


From e02a8d44a3d7ce5b8019091afabbd2ff93d35153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 91/98] fix: do not crash when a benchmark is asked to do zero
 runs or jobs

---
 cli/src/benchmarking.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index aca806d..38847f9 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -128,7 +128,8 @@ pub fn run_benchmark<T: CollectResults + Default + Send>(
 ) -> T {
     const STACK_SIZE: usize = 128 * 1024 * 1024;
 
-    let jobs_queue = ArrayQueue::new(instances.len() * num_runs);
+    let num_jobs = usize::max(num_jobs, 1);
+    let jobs_queue = ArrayQueue::new(usize::max(instances.len() * num_runs, 1));
     for run_index in 0..num_runs {
         for (problem, proof) in instances {
             let job = JobDescriptor {
-- 
2.43.0


From b8d43b6d76f71aa8d935e4290875d696a1421e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 92/98] fix: give check workers a stack when no stack size is
 requested

---
 carcara/src/checker/parallel/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index a7c5d8d..c768e7f 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -67,6 +67,15 @@ impl<'c> ParallelProofChecker<'c> {
         }
     }
 
+    /// A stack size of zero means the default stack size is used.
+    fn thread_builder(&self, index: usize) -> thread::Builder {
+        let builder = thread::Builder::new().name(format!("worker-{index}"));
+        match self.stack_size {
+            0 => builder,
+            size => builder.stack_size(size),
+        }
+    }
+
     pub fn check(
         &mut self,
         problem: &Problem,
@@ -89,9 +98,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.thread_builder(i)
                         .spawn_scoped(s, move || -> CarcaraResult<(bool, bool)> {
                             local_self.worker_thread_check(
                                 problem,
@@ -169,9 +176,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.thread_builder(i)
                         .spawn_scoped(
                             s,
                             move || -> CarcaraResult<(bool, bool, CheckerStatistics<CR>)> {
-- 
2.43.0


From e99c0b0cce97234cce70f82abc5787264c22132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 93/98] fix: do not elaborate steps whose rule the checker was
 told to skip

---
 carcara/src/elaborator/mod.rs        | 28 ++++++++++++++++++++++------
 carcara/src/elaborator/reordering.rs |  8 +++++++-
 carcara/src/lib.rs                   |  2 ++
 cli/src/benchmarking.rs              |  2 ++
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/carcara/src/elaborator/mod.rs b/carcara/src/elaborator/mod.rs
index e2e8eed..c261d49 100644
--- a/carcara/src/elaborator/mod.rs
+++ b/carcara/src/elaborator/mod.rs
@@ -71,11 +71,24 @@ pub struct Elaborator<'e> {
     pool: &'e mut PrimitivePool,
     problem: &'e Problem,
     config: Config,
+    skipped_rules: HashSet<String>,
 }
 
 impl<'e> Elaborator<'e> {
     pub fn new(pool: &'e mut PrimitivePool, problem: &'e Problem, config: Config) -> Self {
-        Self { pool, problem, config }
+        Self {
+            pool,
+            problem,
+            config,
+            skipped_rules: HashSet::new(),
+        }
+    }
+
+    /// Sets the rules whose steps are left unchanged. These should include all rules that were
+    /// skipped when checking the proof, since elaboration is only possible for valid steps.
+    pub fn skip_rules(mut self, rules: HashSet<String>) -> Self {
+        self.skipped_rules = rules;
+        self
     }
 
     pub fn elaborate_with_default_pipeline(&mut self, proof: ProofNodeForest) -> ProofNodeForest {
@@ -116,13 +129,16 @@ impl<'e> Elaborator<'e> {
                 ElaborationStep::Uncrowd => current.mutate(|_, node, _| match node.as_ref() {
                     ProofNode::Step(s)
                         if (s.rule == "resolution" || s.rule == "th_resolution")
-                            && !s.args.is_empty() =>
+                            && !s.args.is_empty()
+                            && !self.skipped_rules.contains(&s.rule) =>
                     {
                         uncrowding::uncrowd_resolution(self.pool, s, self.config.uncrowd_rotation)
                     }
                     _ => node.clone(),
                 }),
-                ElaborationStep::Reordering => reordering::remove_reorderings(current),
+                ElaborationStep::Reordering => {
+                    reordering::remove_reorderings(current, &self.skipped_rules)
+                }
                 ElaborationStep::Hole => {
                     if self.config.hole_options.is_none() {
                         current
@@ -162,7 +178,7 @@ impl<'e> Elaborator<'e> {
                 {
                     self.elaborate_assume(id, *depth, term)
                 }
-                ProofNode::Step(s) => {
+                ProofNode::Step(s) if !self.skipped_rules.contains(&s.rule) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
                         func(self.pool, context, s).unwrap() // TODO: add proper error handling
                     } else {
@@ -188,13 +204,13 @@ impl<'e> Elaborator<'e> {
 
         proof.mutate(|context, node, _| {
             match node.as_ref() {
-                ProofNode::Step(s) => {
+                ProofNode::Step(s) if !self.skipped_rules.contains(&s.rule) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
                         return func(self.pool, context, s).unwrap(); // TODO: add proper error handling
                     }
                 }
                 ProofNode::Subproof(_) => unreachable!(),
-                ProofNode::Assume { .. } => (),
+                ProofNode::Step(_) | ProofNode::Assume { .. } => (),
             }
             node.clone()
         })
diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 8040799..ac91c7a 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,11 +1,17 @@
 use super::*;
 use crate::utils::{DedupIterator, MultiSet};
 
-pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
+pub fn remove_reorderings(
+    proof: ProofNodeForest,
+    skipped_rules: &HashSet<String>,
+) -> ProofNodeForest {
     proof.mutate(|_, node, premises_changed| {
         let Some(step) = node.as_step() else {
             return node.clone();
         };
+        if skipped_rules.contains(&step.rule) {
+            return node.clone();
+        }
 
         // For reordering steps, we remove the step and return its only premise. If the step ends a
         // subproof, or copies a clause from outside of its subproof, we must keep it
diff --git a/carcara/src/lib.rs b/carcara/src/lib.rs
index 42c7e19..35d01b8 100644
--- a/carcara/src/lib.rs
+++ b/carcara/src/lib.rs
@@ -233,6 +233,7 @@ pub fn check_and_elaborate<T: io::BufRead>(
 
     // Checking
     let checking = Instant::now();
+    let skipped_rules = checker_config.allowed_rules.clone();
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
     let checking_result = if collect_stats {
         let mut checker_stats = CheckerStatistics {
@@ -261,6 +262,7 @@ pub fn check_and_elaborate<T: io::BufRead>(
     let node = ast::ProofNodeForest::from_commands(proof.commands);
     let (elaborated, pipeline_durations) =
         elaborator::Elaborator::new(&mut pool, &problem, elaborator_config)
+            .skip_rules(skipped_rules)
             .elaborate_with_stats(node, pipeline);
     let elaborated = ast::Proof {
         commands: elaborated.into_commands(),
diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 38847f9..14466da 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -46,6 +46,7 @@ fn run_job<T: CollectResults + Default + Send>(
         results: std::mem::take(results),
     };
 
+    let skipped_rules = checker_config.allowed_rules.clone();
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
@@ -62,6 +63,7 @@ fn run_job<T: CollectResults + Default + Send>(
         let node = ast::ProofNodeForest::from_commands(proof.commands);
         let (elaborated, pipeline_durations) =
             elaborator::Elaborator::new(&mut pool, &problem, config)
+                .skip_rules(skipped_rules)
                 .elaborate_with_stats(node, pipeline);
         elaborated.into_commands();
         (elaboration.elapsed(), pipeline_durations)
-- 
2.43.0


From a547ca112fc4cbc88942d6c36073ef661d9b9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 94/98] fix: start each proof checked by a checker from a clean
 state

---
 carcara/src/checker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 678eb02..0989aa5 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -124,6 +124,11 @@ impl<'c> ProofChecker<'c> {
         proof: &Proof,
         mut stats: Option<&mut CheckerStatistics<CR>>,
     ) -> CarcaraResult<bool> {
+        // Nothing of a proof that was checked before with this checker may influence this one
+        self.context = ContextStack::new();
+        self.reached_empty_clause = false;
+        self.is_holey = false;
+
         // Similarly to the parser, to avoid stack overflows in proofs with many nested subproofs,
         // we check the subproofs iteratively, instead of recursively
         let mut iter = proof.iter();
-- 
2.43.0


From bafcde54a90b7943fda39ce91d5ba0aee434b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:44 +0000
Subject: [PATCH 95/98] fix: parser crash on the deletion operator without
 arguments

---
 carcara/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 7176d51..e6b6121 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -527,8 +527,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
-- 
2.43.0


From d841adf580c31f6661da5ae2e44a17c4dd1ccf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 96/98] fix: parenthesis in place of the name of a command in
 the problem

---
 carcara/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e6b6121..000b9b5 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -784,7 +784,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
         while self.current_token != Token::Eof {
             self.expect_token(Token::OpenParen)?;
-            match self.next_token()?.0 {
+            let (token, pos) = self.next_token()?;
+            match token {
                 Token::ReservedWord(Reserved::DeclareFun) => {
                     let (name, sort) = self.parse_declare_fun()?;
                     self.insert_sorted_var((name.clone(), sort.clone()));
@@ -864,6 +865,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         (logic.contains("LRA") || logic.contains("NRA") || logic.contains("RDL"))
                             && !logic.contains('I');
                 }
+                // A command must start with its name
+                other @ (Token::OpenParen | Token::CloseParen | Token::Eof) => {
+                    return Err(Error::Parser(ParserError::UnexpectedToken(other), pos));
+                }
                 _ => {
                     // If the command is not one of the commands we care about, we just ignore it.
                     // We do that by reading tokens until the command parenthesis is closed
-- 
2.43.0


From 5d20def5be64513dd8bee61a4ebbf7555e05fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 97/98] fix: aci_simp of a term whose arguments are all the
 identity

---
 carcara/src/checker/rules/simplification.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 9ee81e8..247ebae 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -886,10 +886,10 @@ fn apply_aci_simp(
             if is_idempotent(op) {
                 args = args.into_iter().dedup().collect();
             }
-            if args.len() == 1 {
-                args[0].clone()
-            } else {
-                pool.add(Term::Op(op, args))
+            match (args.as_slice(), identity) {
+                ([arg], _) => arg.clone(),
+                ([], Some(identity)) => pool.add(identity.clone()),
+                _ => pool.add(Term::Op(op, args)),
             }
         }
         _ => term.clone(),
-- 
2.43.0


From 9127270ceb57cf744e1027392a332dd1d2cce39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:41 +0000
Subject: [PATCH 98/98] fix: evaluating a power of two with a huge exponent
 aborted the process

---
 carcara/src/ast/evaluate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 50fa73a..31e20eb 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -334,7 +334,8 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if v < 0 {
                 return Some(Value::Integer(Integer::from(0)));
             }
-            let v = v.to_usize()?;
+            // Exponents that do not fit in 32 bits would result in unreasonably large numbers
+            let v = v.to_u32()?;
             Value::Integer(Integer::from(1) << v)
         }
         Operator::Log2 => {
-- 
2.43.0

