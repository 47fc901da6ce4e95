From d5355b1f8c6dcff86fe1c0c4ba8b1701397dda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 01/36] fix: do not accept a claim's generic clause when only
 its specialization is justified

---
 src/certificate_trace.rs | 121 +++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 6763b11..937f0aa 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -866,13 +866,14 @@ impl<'a> TraceWriter<'a> {
                 if reason.is_none() {
                     return Ok(None);
                 }
+                let aliases = self.known_claim_aliases(code, generic, clause);
                 self.push_step(
                     TraceRule::Claim,
                     code.clone(),
                     vec![],
                     clause.clone(),
                     false,
-                    Self::claim_aliases_for_code(code, generic.clone(), clause),
+                    aliases,
                 )
                 .map(Some)
             }
@@ -1190,7 +1191,6 @@ impl<'a> TraceWriter<'a> {
                     )
                     .map(Some);
             }
-            let aliases = Self::claim_aliases_for_code(code, generic.clone(), clause);
             return self
                 .push_step(
                     TraceRule::BrIntro,
@@ -1198,7 +1198,7 @@ impl<'a> TraceWriter<'a> {
                     premises,
                     clause.clone(),
                     false,
-                    aliases,
+                    vec![],
                 )
                 .map(Some);
         }
@@ -1601,11 +1601,23 @@ impl<'a> TraceWriter<'a> {
         }
     }
 
-    fn claim_aliases_for_code(code: &str, generic: Clause, specialized: &Clause) -> Vec<Clause> {
-        if is_synthetic_generic_wrapper(code) {
+    /// The generic clause of a claim only becomes a fact when it is itself known.
+    /// Knowing the specialized clause does not make the generic clause true.
+    fn known_claim_aliases(
+        &mut self,
+        code: &str,
+        generic: &Clause,
+        specialized: &Clause,
+    ) -> Vec<Clause> {
+        if is_synthetic_generic_wrapper(code)
+            || self
+                .shadow_checker
+                .check_clause_direct_for_trace(generic, &self.kernel_context)
+                .is_none()
+        {
             vec![]
         } else {
-            Self::claim_aliases(generic, specialized)
+            Self::claim_aliases(generic.clone(), specialized)
         }
     }
 
@@ -3778,23 +3790,12 @@ impl<'a> TraceChecker<'a> {
             TraceRule::Fact | TraceRule::Claim => {
                 let (generic, specialized, code) =
                     self.parse_required_claim_with_generic(index, step)?;
-                let clause = if step.generic {
-                    generic.clone()
-                } else {
-                    specialized.clone()
-                };
-                let aliases = if is_synthetic_generic_wrapper(&code) {
-                    vec![]
-                } else {
-                    TraceWriter::claim_aliases(generic.clone(), &specialized)
-                };
-                let reason = self
+                let generic_reason = self
                     .checker
-                    .check_clause_direct_for_trace(&generic, &self.kernel_context)
-                    .or_else(|| {
-                        self.checker
-                            .check_clause_direct_for_trace(&clause, &self.kernel_context)
-                    })
+                    .check_clause_direct_for_trace(&generic, &self.kernel_context);
+                // Knowing only the specialized clause does not make the generic clause true.
+                let generic_known = generic_reason.is_some();
+                let reason = generic_reason
                     .or_else(|| {
                         self.checker
                             .check_clause_direct_for_trace(&specialized, &self.kernel_context)
@@ -3807,6 +3808,16 @@ impl<'a> TraceChecker<'a> {
                             code
                         ))
                     })?;
+                let aliases = if !generic_known || is_synthetic_generic_wrapper(&code) {
+                    vec![]
+                } else {
+                    TraceWriter::claim_aliases(generic.clone(), &specialized)
+                };
+                let clause = if step.generic && generic_known {
+                    generic
+                } else {
+                    specialized
+                };
                 self.accept_clause_with_aliases(clause, aliases, reason, code);
             }
             TraceRule::Inst => {
@@ -3884,7 +3895,14 @@ impl<'a> TraceChecker<'a> {
                 };
                 match (step.br_kind, step.br_literal_index) {
                     (Some(kind), Some(literal_index)) => {
-                        let canonical_targets: Vec<Clause> = [&result, &generic, &specialized]
+                        // The generic clause justifies the specialized one, but not
+                        // the other way around.
+                        let targets = if step.generic {
+                            vec![&generic]
+                        } else {
+                            vec![&specialized, &generic]
+                        };
+                        let canonical_targets: Vec<Clause> = targets
                             .iter()
                             .filter_map(|target| {
                                 self.checker
@@ -3900,9 +3918,7 @@ impl<'a> TraceChecker<'a> {
                                     &self.kernel_context,
                                 )
                                 .is_some_and(|candidate| {
-                                    candidate == result
-                                        || candidate == generic
-                                        || candidate == specialized
+                                    targets.contains(&&candidate)
                                         || canonical_targets.contains(&candidate)
                                 })
                         });
@@ -3956,21 +3972,12 @@ impl<'a> TraceChecker<'a> {
             TraceRule::BrIntro => {
                 let (generic, specialized, code) =
                     self.parse_required_claim_with_generic(index, step)?;
-                let result = if step.generic {
-                    generic.clone()
-                } else {
-                    specialized.clone()
-                };
-                let justified = if step.premises.is_empty() {
+                let proves: Box<dyn Fn(&mut Self, &Clause) -> bool> = if step.premises.is_empty() {
                     // Legacy premise-less form: re-derive from known reductions.
-                    self.checker
-                        .boolean_reduction_proves_for_trace(&generic, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&result, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&specialized, &self.kernel_context)
+                    Box::new(|this, target| {
+                        this.checker
+                            .boolean_reduction_proves_for_trace(target, &this.kernel_context)
+                    })
                 } else {
                     // Premise-bearing form: the premises must jointly form one of the
                     // clause's reduction sets, so the check is local to this step.
@@ -3985,31 +3992,24 @@ impl<'a> TraceChecker<'a> {
                         };
                         premise_clauses.extend(step_clauses.all().cloned());
                     }
-                    let mut targets = vec![&result];
-                    if specialized != result {
-                        targets.push(&specialized);
-                    }
-                    if generic != result && generic != specialized {
-                        targets.push(&generic);
-                    }
-                    targets.iter().any(|target| {
-                        self.checker
-                            .checker_boolean_reduction_sets(target, &self.kernel_context)
+                    Box::new(move |this, target| {
+                        this.checker
+                            .checker_boolean_reduction_sets(target, &this.kernel_context)
                             .iter()
                             .any(|set| {
                                 set.iter().all(|member| {
                                     premise_clauses.iter().any(|premise| {
                                         premise == member
-                                            || self
+                                            || this
                                                 .checker
                                                 .canonical_clause_for_trace(
                                                     premise,
-                                                    &self.kernel_context,
+                                                    &this.kernel_context,
                                                 )
                                                 .is_some_and(|canonical_premise| {
-                                                    self.checker.canonical_clause_for_trace(
+                                                    this.checker.canonical_clause_for_trace(
                                                         member,
-                                                        &self.kernel_context,
+                                                        &this.kernel_context,
                                                     ) == Some(canonical_premise)
                                                 })
                                     })
@@ -4017,6 +4017,10 @@ impl<'a> TraceChecker<'a> {
                             })
                     })
                 };
+                // Justifying only the specialized clause does not make the generic clause true.
+                let generic_justified = proves(self, &generic);
+                let justified =
+                    generic_justified || (specialized != generic && proves(self, &specialized));
                 if !justified {
                     return Err(CodeGenError::GeneratedBadCode(format!(
                         "certificate trace br_intro step {} is not justified by known reductions: {}",
@@ -4024,10 +4028,15 @@ impl<'a> TraceChecker<'a> {
                         code
                     )));
                 }
-                let aliases = if is_synthetic_generic_wrapper(&code) {
+                let aliases = if !generic_justified || is_synthetic_generic_wrapper(&code) {
                     vec![]
                 } else {
-                    TraceWriter::claim_aliases(generic, &specialized)
+                    TraceWriter::claim_aliases(generic.clone(), &specialized)
+                };
+                let result = if step.generic && generic_justified {
+                    generic
+                } else {
+                    specialized
                 };
                 self.accept_clause_with_aliases(
                     result,
-- 
2.43.0


From d683b8a05cd0c9139c8a13263f70a7ed3a1faf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 02/36] fix: keep unused universal variables over possibly
 empty types when clausifying

---
 src/kernel/clausifier.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/kernel/clausifier.rs b/src/kernel/clausifier.rs
index c9d39ba..ded95f8 100644
--- a/src/kernel/clausifier.rs
+++ b/src/kernel/clausifier.rs
@@ -268,6 +268,34 @@ impl<'a> Clausifier<'a> {
         body
     }
 
+    /// Guards for leading universals whose variable is unused. Their domain may be empty, and
+    /// normalization erases unused variables, so `forall(x: T) { c }` becomes `x != x or c`
+    /// unless `T` is known to be inhabited.
+    fn vacuous_forall_guards(
+        &self,
+        opened: &Term,
+        context: &LocalContext,
+        pinned: usize,
+    ) -> Vec<Literal> {
+        let mut guards = vec![];
+        for var_id in pinned..context.len() {
+            let id = var_id as AtomId;
+            let Some(var_type) = context.get_var_type(var_id) else {
+                continue;
+            };
+            if opened.has_variable(id)
+                || self
+                    .kernel_context()
+                    .provably_inhabited_without_local_elements(var_type, Some(context))
+            {
+                continue;
+            }
+            let var = Term::new_variable(id);
+            guards.push(Literal::not_equals(var.clone(), var));
+        }
+        guards
+    }
+
     fn literal_from_shallow_term(
         &mut self,
         term: &Term,
@@ -463,22 +491,28 @@ impl<'a> Clausifier<'a> {
         let (mut context, mut next_var_id, pinned) = self.initial_clause_context();
         let mut stack = vec![];
         let opened = self.open_leading_foralls_as_free_vars(term, &mut context, &mut next_var_id);
+        let guards = self.vacuous_forall_guards(&opened, &context, pinned);
         if let Some(args) = self.split_symbol_application(&opened, Symbol::Eq, 3) {
-            if self.split_match_eliminator_application(&args[1]).is_some()
-                || self.split_match_eliminator_application(&args[2]).is_some()
+            if guards.is_empty()
+                && (self.split_match_eliminator_application(&args[1]).is_some()
+                    || self.split_match_eliminator_application(&args[2]).is_some())
             {
                 // Match eliminator equalities still rely on the old guarded-case clause-set lowering
                 // to produce constructor-guarded case clauses.
                 return self.shallow_clausify_term(term);
             }
         }
-        let literals = self.shallow_term_to_disjunctive_literals(
+        let mut literals = self.shallow_term_to_disjunctive_literals(
             &opened,
             true,
             &mut stack,
             &mut next_var_id,
             &mut context,
         )?;
+        if !guards.is_empty() {
+            literals.retain(|literal| !literal.is_false_value());
+            literals.extend(guards);
+        }
         let clause = Clause::new_with_pinned_vars(literals, &context, pinned);
         if clause.is_tautology() {
             Ok(vec![])
-- 
2.43.0


From 0aef6a46c785a07ca2bedefb896c1a46493b5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 03/36] fix: an existential under a possibly empty universal
 does not inhabit its type

---
 src/kernel/checker.rs    | 29 ++++++++++++++++++++++++++---
 src/kernel/clause.rs     | 11 +++++++++++
 src/prover/active_set.rs |  3 +++
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/kernel/checker.rs b/src/kernel/checker.rs
index 5cea248..e200fb8 100644
--- a/src/kernel/checker.rs
+++ b/src/kernel/checker.rs
@@ -166,6 +166,10 @@ pub struct Checker {
     /// Types that previous certificate steps established as inhabited.
     proven_inhabited: HashSet<(Term, LocalContext)>,
 
+    /// Bare type variables that a previous step's existential ranged over. These only refute
+    /// "every type is empty"; they do not make every type inhabited.
+    existential_type_variables: HashSet<(Term, LocalContext)>,
+
     /// The reason for each step. The step_id is the index in this vector.
     reasons: ImVector<StepReason>,
 
@@ -187,6 +191,7 @@ impl Checker {
             concrete_generation: 0,
             past_boolean_reductions: ImHashSet::new(),
             proven_inhabited: HashSet::new(),
+            existential_type_variables: HashSet::new(),
             reasons: ImVector::new(),
             inserted_clauses: ImVector::new(),
             eager_boolean_reductions: true,
@@ -233,7 +238,21 @@ impl Checker {
         let Some(key) = Self::inhabited_type_from_clause(clause, kernel_context) else {
             return None;
         };
-        self.proven_inhabited.insert(key.clone()).then_some(key)
+        if clause.has_only_inhabited_variables(kernel_context) {
+            return self.proven_inhabited.insert(key.clone()).then_some(key);
+        }
+        let (binder_type, context) = &key;
+        let is_bare_type_variable = binder_type
+            .as_ref()
+            .atomic_variable()
+            .and_then(|id| context.get_var_type(id as usize))
+            .is_some_and(|kind| kind.as_ref().is_type0());
+        if !is_bare_type_variable {
+            return None;
+        }
+        self.existential_type_variables
+            .insert(key.clone())
+            .then_some(key)
     }
 
     fn negated_exists_true_type_from_clause(clause: &Clause) -> Option<(Term, LocalContext)> {
@@ -254,6 +273,10 @@ impl Checker {
         ))
     }
 
+    fn refutes_emptiness_of(&self, key: &(Term, LocalContext)) -> bool {
+        self.proven_inhabited.contains(key) || self.existential_type_variables.contains(key)
+    }
+
     fn has_negated_exists_true_for(&self, key: &(Term, LocalContext)) -> bool {
         self.exact_clauses
             .keys()
@@ -494,7 +517,7 @@ impl Checker {
             StepReason::PreviousClaim | StepReason::WitnessDeclaration | StepReason::Testing
         );
         if let Some(key) = Self::negated_exists_true_type_from_clause(clause) {
-            if self.proven_inhabited.contains(&key) {
+            if self.refutes_emptiness_of(&key) {
                 self.direct_contradiction = true;
                 self.direct_contradiction_dependencies = Self::dependencies_for_reason(&reason);
             }
@@ -652,7 +675,7 @@ impl Checker {
         self.exact_clauses.entry(clause.clone()).or_insert(step_id);
 
         if let Some(key) = Self::negated_exists_true_type_from_clause(clause) {
-            if self.proven_inhabited.contains(&key) {
+            if self.refutes_emptiness_of(&key) {
                 self.direct_contradiction = true;
                 self.direct_contradiction_dependencies = Self::dependencies_for_reason(&reason);
             }
diff --git a/src/kernel/clause.rs b/src/kernel/clause.rs
index f0e10cd..b666786 100644
--- a/src/kernel/clause.rs
+++ b/src/kernel/clause.rs
@@ -1224,6 +1224,17 @@ impl Clause {
         self.positive_exists_reduction_impl(kernel_context, true)
     }
 
+    /// Whether every value variable of this clause ranges over a type known to be inhabited.
+    ///
+    /// Only then does a universally quantified `exists` establish that its binder type has an
+    /// element; over an empty domain the clause holds vacuously.
+    pub fn has_only_inhabited_variables(&self, kernel_context: &KernelContext) -> bool {
+        self.context.get_var_types().iter().flatten().all(|t| {
+            t.as_ref().is_type_param_kind()
+                || kernel_context.provably_inhabited_without_local_elements(t, Some(&self.context))
+        })
+    }
+
     /// Apply a chosen witness term to one positive-existential reduction candidate.
     pub fn instantiate_positive_exists_reduction(
         &self,
diff --git a/src/prover/active_set.rs b/src/prover/active_set.rs
index 4d56b51..9d13933 100644
--- a/src/prover/active_set.rs
+++ b/src/prover/active_set.rs
@@ -353,6 +353,9 @@ impl ActiveSet {
         kernel_context: &KernelContext,
     ) -> Option<(Term, LocalContext)> {
         let reduction = step.clause.positive_exists_reduction(kernel_context)?;
+        if !step.clause.has_only_inhabited_variables(kernel_context) {
+            return None;
+        }
         Some(Self::inhabited_type_key(
             &reduction.binder_type,
             step.clause.get_local_context(),
-- 
2.43.0


From 46715419e9634ce32523c782302e12c411ee076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 04/36] fix: passive simplification must not erase variables of
 possibly empty types

---
 src/prover/passive_set.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/prover/passive_set.rs b/src/prover/passive_set.rs
index c1638a6..4085860 100644
--- a/src/prover/passive_set.rs
+++ b/src/prover/passive_set.rs
@@ -651,6 +651,23 @@ impl PassiveSet {
                 }
             }
 
+            // Likewise, erasing a variable is only sound when its type is known to be inhabited.
+            // Otherwise the clause may hold vacuously, so keep it as it was.
+            let eliminated_inhabited = (0..passive_context.len()).all(|i| {
+                var_ids.contains(&(i as AtomId))
+                    || passive_context.get_var_type(i).is_none_or(|t| {
+                        kernel_context.provably_inhabited(t, Some(&passive_context))
+                    })
+            });
+            if !eliminated_inhabited {
+                if let Some(df_queue) = &mut self.df_queue {
+                    df_queue.insert(Self::df_key(&score, clause_id));
+                }
+                self.queue.insert((score, clause_id));
+                self.clauses[clause_id] = Some((step, score));
+                continue;
+            }
+
             let truthiness = step.truthiness.combine(activated_step.truthiness);
             let proof_size = step.proof_size + activated_step.proof_size;
             let depth = u32::max(step.depth, activated_step.depth);
-- 
2.43.0


From 62a6ae6409955a45cd7edfe1d6f288a5652cc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:03 +0000
Subject: [PATCH 05/36] fix: display applications whose head is a binder
 instead of panicking

---
 src/kernel/term.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 7033099..ae16216 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1460,7 +1460,15 @@ fn format_application_contents(
             | TermComponent::Lambda { .. }
             | TermComponent::ForAll { .. }
             | TermComponent::Exists { .. } => {
-                return Err(fmt::Error);
+                // The head is an unreduced binder, like lambda(T => body)(arg).
+                let head_end = find_subterm_end_at(components, current_start);
+                write!(f, "(")?;
+                format_term_at(f, components, current_start)?;
+                write!(f, ")")?;
+                if head_end < current_end {
+                    args.push((head_end, find_subterm_end_at(components, head_end)));
+                }
+                break;
             }
         }
     }
-- 
2.43.0


From d058978bc55d0366e433e01c2db81c6f390c0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 06/36] fix: close certificates by equality resolution after
 later steps establish inhabitedness

---
 src/certificate_trace.rs | 58 +++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 937f0aa..e47876b 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -3467,6 +3467,35 @@ impl<'a> TraceWriter<'a> {
         Ok(self.shadow_checker.has_contradiction())
     }
 
+    /// Closes the proof with an equality resolution of a step emitted so far, when there is one.
+    fn emit_equality_resolution_contradiction(&mut self) -> Result<bool, CodeGenError> {
+        let impossible = Clause::impossible();
+        for source_index in (0..self.step_clauses.len()).rev() {
+            let source_candidates: Vec<Clause> =
+                self.step_clauses[source_index].all().cloned().collect();
+            if source_candidates.iter().any(|source| {
+                self.shadow_checker.equality_resolution_derives_for_trace(
+                    source,
+                    &impossible,
+                    &self.kernel_context,
+                )
+            }) {
+                self.push_step(
+                    TraceRule::Er,
+                    "false".to_string(),
+                    vec![source_index],
+                    impossible.clone(),
+                    false,
+                    vec![],
+                )?;
+                if self.shadow_checker.has_contradiction() {
+                    return Ok(true);
+                }
+            }
+        }
+        Ok(false)
+    }
+
     fn emit_boolean_reduction_contradiction(&mut self) -> Result<(), CodeGenError> {
         let impossible = Clause::impossible();
         if self.emit_derivation_contradiction_trace()? {
@@ -3516,28 +3545,8 @@ impl<'a> TraceWriter<'a> {
                 return Ok(());
             }
         }
-        for source_index in (0..self.step_clauses.len()).rev() {
-            let source_candidates: Vec<Clause> =
-                self.step_clauses[source_index].all().cloned().collect();
-            if source_candidates.iter().any(|source| {
-                self.shadow_checker.equality_resolution_derives_for_trace(
-                    source,
-                    &impossible,
-                    &self.kernel_context,
-                )
-            }) {
-                self.push_step(
-                    TraceRule::Er,
-                    "false".to_string(),
-                    vec![source_index],
-                    impossible.clone(),
-                    false,
-                    vec![],
-                )?;
-                if self.shadow_checker.has_contradiction() {
-                    return Ok(());
-                }
-            }
+        if self.emit_equality_resolution_contradiction()? {
+            return Ok(());
         }
         if self
             .emit_multi_premise_eq_step("false".to_string(), impossible.clone(), false)?
@@ -3588,6 +3597,11 @@ impl<'a> TraceWriter<'a> {
                 }
             }
         }
+        // Steps emitted above may have established that a type is inhabited, which equality
+        // resolution needs before it can close a clause like `x0 != x0`.
+        if self.emit_equality_resolution_contradiction()? {
+            return Ok(());
+        }
         let failed_context = if failed_candidates.is_empty() {
             String::new()
         } else {
-- 
2.43.0


From 3be963bf5df4696bb394fd98f2c7005bb0991aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 07/36] fix: skip boolean-reduction certificate steps that
 reading the claim already performs

---
 src/certificate_trace.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index e47876b..6562f4e 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -3643,6 +3643,21 @@ impl<'a> TraceWriter<'a> {
                 code
             )));
         }
+        if let Some((
+            BooleanReductionKind::IteSimplifyLeft | BooleanReductionKind::IteSimplifyRight,
+            _,
+        )) = br_detail
+        {
+            if let Some(index) = self.step_with_same_claim(&premises, &code, generic) {
+                // Reading the premise's claim already simplifies it this far.
+                let step_clauses = StepClauses::new(clause, aliases);
+                self.insert_step_clauses(index, &step_clauses);
+                self.step_clauses[index]
+                    .aliases
+                    .extend(step_clauses.all().cloned());
+                return Ok(index);
+            }
+        }
         let index = self.steps.len();
         let step_clauses = StepClauses::new(clause, aliases);
         self.insert_step_clauses(index, &step_clauses);
@@ -3653,6 +3668,22 @@ impl<'a> TraceWriter<'a> {
         Ok(index)
     }
 
+    /// The only premise, if its claim reads back as the same clause as `code`.
+    fn step_with_same_claim(&self, premises: &[usize], code: &str, generic: bool) -> Option<usize> {
+        let [index] = *premises else {
+            return None;
+        };
+        let premise = self.steps.get(index)?;
+        if premise.generic != generic || !matches!(premise.rule, TraceRule::Claim | TraceRule::Br) {
+            return None;
+        }
+        let target = self.parse_serialized_clause(code, generic).ok()?;
+        let source = self
+            .parse_serialized_clause(&premise.claim, generic)
+            .ok()?;
+        (source == target).then_some(index)
+    }
+
     fn boolean_reduction_detail_for_step(
         &self,
         source_index: usize,
-- 
2.43.0


From 995ca8d27014f1ea4fbbdd20eaef27cca81bae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:59 +0000
Subject: [PATCH 08/36] fix: a contradiction of two universal certificate steps
 needs inhabited variables

---
 src/certificate_trace.rs | 12 ++++++++++--
 src/kernel/checker.rs    | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 6562f4e..08a15b4 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -3415,7 +3415,11 @@ impl<'a> TraceWriter<'a> {
             let source_candidates: Vec<Clause> =
                 self.step_clauses[source_index].all().cloned().collect();
             if source_candidates.iter().any(|source| {
-                Checker::clauses_contradict_for_trace(source, clause, &self.kernel_context)
+                self.shadow_checker.clauses_contradict_for_trace(
+                    source,
+                    clause,
+                    &self.kernel_context,
+                )
             }) {
                 return Some(source_index);
             }
@@ -4326,7 +4330,11 @@ impl<'a> TraceChecker<'a> {
                     })?;
                     let contradicts = left_clauses.all().any(|left| {
                         right_clauses.all().any(|right| {
-                            Checker::clauses_contradict_for_trace(left, right, &self.kernel_context)
+                            self.checker.clauses_contradict_for_trace(
+                                left,
+                                right,
+                                &self.kernel_context,
+                            )
                         })
                     });
                     if !contradicts {
diff --git a/src/kernel/checker.rs b/src/kernel/checker.rs
index e200fb8..72b51c7 100644
--- a/src/kernel/checker.rs
+++ b/src/kernel/checker.rs
@@ -1076,7 +1076,21 @@ impl Checker {
         )
     }
 
+    /// Whether every variable of this clause can be instantiated with some element.
+    /// A universal clause over a possibly empty type contradicts nothing by itself.
+    fn all_variables_inhabited(&self, clause: &Clause, kernel_context: &KernelContext) -> bool {
+        let context = clause.get_local_context();
+        context.get_var_types().iter().flatten().all(|var_type| {
+            var_type.as_ref().is_type_param_kind()
+                || self
+                    .proven_inhabited
+                    .contains(&Self::inhabited_type_key(var_type, context))
+                || Self::provably_inhabited_for_elimination(kernel_context, var_type, Some(context))
+        })
+    }
+
     pub(crate) fn clauses_contradict_for_trace(
+        &self,
         left: &Clause,
         right: &Clause,
         kernel_context: &KernelContext,
@@ -1091,8 +1105,10 @@ impl Checker {
             let negated_left = Clause::new(vec![left_literal.negate()], left.get_local_context());
             let negated_right =
                 Clause::new(vec![right_literal.negate()], right.get_local_context());
-            return Self::clause_specializes_for_trace(left, &negated_right, kernel_context)
-                || Self::clause_specializes_for_trace(right, &negated_left, kernel_context);
+            return (Self::clause_specializes_for_trace(left, &negated_right, kernel_context)
+                && self.all_variables_inhabited(right, kernel_context))
+                || (Self::clause_specializes_for_trace(right, &negated_left, kernel_context)
+                    && self.all_variables_inhabited(left, kernel_context));
         }
 
         if left.has_any_variable() || right.has_any_variable() {
-- 
2.43.0


From 1e86034988e2086b2419cbb869c9d89023e3cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 09/36] fix: a build whose target fails to load through a
 dependency is not a success

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 210b4fe..8222e98 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1694,6 +1694,8 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
+                        // The target could not be verified, wherever the problem is.
+                        self.status = BuildStatus::Error;
                         if self.log_secondary_errors {
                             self.log_global(e.to_string());
                         }
-- 
2.43.0


From 9ffdbb225c221672220da1ac99b8257f5e682f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 10/36] fix: record in the manifest which dependency versions a
 module was verified against

---
 src/builder.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8222e98..e5d8dbf 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1819,12 +1819,12 @@ impl<'a> Builder<'a> {
         let Some(descriptor) = self.project().get_module_descriptor(module_id).cloned() else {
             return;
         };
-        let Some(content_hash) = self.project().get_module_content_hash(module_id) else {
+        let Some(state_hash) = self.module_state_hash(module_id) else {
             return;
         };
         let dependency_hashes = self.dependency_hashes_for_module(module_id);
         if let Some(build_cache) = self.build_cache.as_mut() {
-            build_cache.record_unchanged(&descriptor, content_hash, &dependency_hashes);
+            build_cache.record_unchanged(&descriptor, state_hash, &dependency_hashes);
         }
     }
 
@@ -2955,8 +2955,8 @@ impl<'a> Builder<'a> {
         self.used_cert_counts
             .insert(target.clone(), used_cert_count);
 
-        let content_hash = if module_good {
-            self.project().get_module_content_hash(lowered.module_id)
+        let state_hash = if module_good {
+            self.module_state_hash(lowered.module_id)
         } else {
             None
         };
@@ -2969,7 +2969,7 @@ impl<'a> Builder<'a> {
         self.build_cache.as_mut().unwrap().insert(
             target.clone(),
             cert_store,
-            content_hash,
+            state_hash,
             &dependency_hashes,
         );
 
@@ -3736,6 +3736,30 @@ impl<'a> Builder<'a> {
         dependencies
     }
 
+    /// Hash of everything the verification of a module rests on: its own content and the
+    /// content of all its dependencies. The manifest records this, because an entry can
+    /// outlive the versions of the dependencies that its module was verified against.
+    fn module_state_hash(&self, module_id: ModuleId) -> Option<blake3::Hash> {
+        let content_hash = self.project().get_module_content_hash(module_id)?;
+        let mut dependencies = self
+            .dependency_hashes_for_module(module_id)
+            .into_iter()
+            .map(|(descriptor, hash)| (descriptor.to_string(), hash))
+            .collect::<Vec<_>>();
+        if dependencies.is_empty() {
+            return Some(content_hash);
+        }
+        dependencies.sort_by(|left, right| left.0.cmp(&right.0));
+        let mut hasher = blake3::Hasher::new();
+        hasher.update(content_hash.as_bytes());
+        for (name, hash) in dependencies {
+            hasher.update(name.as_bytes());
+            hasher.update(&[0]);
+            hasher.update(hash.as_bytes());
+        }
+        Some(hasher.finalize())
+    }
+
     fn try_skip_unchanged_module(
         &mut self,
         module_id: ModuleId,
@@ -3749,7 +3773,7 @@ impl<'a> Builder<'a> {
             return false;
         };
 
-        let Some(current_hash) = self.project().get_module_content_hash(module_id) else {
+        let Some(current_hash) = self.module_state_hash(module_id) else {
             return false;
         };
 
@@ -3767,7 +3791,7 @@ impl<'a> Builder<'a> {
                 return false;
             };
 
-            let Some(dep_hash) = self.project().get_module_content_hash(dep_id) else {
+            let Some(dep_hash) = self.module_state_hash(dep_id) else {
                 return false;
             };
 
-- 
2.43.0


From 7b88cc41e919d48157cacc1e34884b08c78faf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:29 +0000
Subject: [PATCH 11/36] fix: report a package found invalid after its interface
 was loaded as a dependency

---
 src/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e5d8dbf..cc77094 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1684,11 +1684,14 @@ impl<'a> Builder<'a> {
         processed: &HashSet<ModuleDescriptor>,
     ) {
         for target in targets {
-            if processed.contains(target) {
+            let project = self.project().clone();
+            let state = project.get_module(target);
+            // A package interface can be processed as a dependency of another target,
+            // before its own package turns out to be invalid.
+            if processed.contains(target) && !matches!(state, ProjectViewModule::Error(_)) {
                 continue;
             }
-            let project = self.project().clone();
-            match project.get_module(target) {
+            match state {
                 ProjectViewModule::Ok(_) => {
                     self.log_global(format!("error: module {} has no lowered work", target));
                 }
-- 
2.43.0


From 7ff87e371aa14bb6e003c53d5e5994cb3c6fcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 12/36] fix: update acorn.toml through a temporary file so an
 interrupted write cannot lose it

---
 src/project.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 62ee215..17e1983 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1583,7 +1583,14 @@ impl Project {
             )
         })?;
         doc["project_format_version"] = value(i64::from(Manifest::current_version()));
-        std::fs::write(acorn_toml, doc.to_string())
+        let updated = doc.to_string();
+        if updated == existing {
+            return Ok(());
+        }
+        // Write to a temporary file first, so that an interrupted write can't lose the user's file.
+        let temp_path = acorn_toml.with_file_name(".acorn.toml.tmp");
+        std::fs::write(&temp_path, updated)?;
+        std::fs::rename(&temp_path, acorn_toml)
     }
 
     // Create a new project.
-- 
2.43.0


From b73415310ff752f18cfedb1cb5054b00f7b4f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 13/36] fix: save certificates through a temporary file so an
 interrupted save keeps the old ones

---
 src/certificate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/certificate.rs b/src/certificate.rs
index 14be252..093bfec 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2268,7 +2268,9 @@ impl CertificateStore {
 
     /// Save the certificate store to a file in JSONL format (one certificate per line)
     pub fn save(&self, filename: &Path) -> Result<(), Box<dyn Error>> {
-        let file = File::create(filename)?;
+        // Write to a temporary file first, so that an interrupted save keeps the old certificates.
+        let temp_path = filename.with_extension("jsonl.tmp");
+        let file = File::create(&temp_path)?;
         let mut writer = BufWriter::new(file);
 
         for cert in &self.certs {
@@ -2277,6 +2279,7 @@ impl CertificateStore {
         }
 
         writer.flush()?;
+        std::fs::rename(&temp_path, filename)?;
         Ok(())
     }
 
-- 
2.43.0


From 64b6b3f2acb30d31db7136216bf7e077ea36e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 14/36] fix: drop a package manifest before replacing
 certificates it vouches for

---
 src/build_cache.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 47569ab..84adc34 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -458,6 +458,21 @@ impl BuildCache {
             self.merge_missing_manifests_from(old_cache);
         }
 
+        // While certificates are being replaced, the manifest on disk would vouch for modules
+        // whose certificates may be gone, so it goes away first.
+        for (descriptor, cert_store) in &self.cache {
+            if old_cache.cache.get(descriptor) == Some(cert_store) {
+                continue;
+            }
+            let Some(package_root) = self.package_root_for_descriptor(descriptor) else {
+                continue;
+            };
+            let path = Self::package_manifest_path(&package_root);
+            if path.exists() {
+                std::fs::remove_file(path)?;
+            }
+        }
+
         for (descriptor, cert_store) in &self.cache {
             let Some(path) = self.cert_path_for_descriptor(descriptor) else {
                 continue;
-- 
2.43.0


From 05113afa7787d0b000540ccdcd4b6efe1437147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:57 +0000
Subject: [PATCH 15/36] fix: reject inductive types that are not strictly
 positive

A parameter to the left of two arrows counted as positive, datatypes from other
modules and axiomatic types as covariant, dependent families were not checked
at all, and the variance of a recursive type ignored how the type uses its own
parameters. Each of these let an inductive type contain its own predicates, so
that false could be proved.
---
 src/elaborator/acorn_type.rs                  |  43 ++---
 src/elaborator/environment/add_statement.rs   |   4 +-
 .../environment/add_statement/datatypes.rs    | 161 +++++++++++++-----
 3 files changed, 143 insertions(+), 65 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 2e5d541..4fe118f 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -8,9 +8,9 @@ use crate::module::ModuleId;
 /// Variance of a type parameter indicates how it appears in a type definition.
 #[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub enum Variance {
-    /// Type parameter appears only in positive positions (covariant)
+    /// Type parameter appears only in strictly positive positions, never left of an arrow
     Positive,
-    /// Type parameter appears only in negative positions (contravariant)
+    /// Type parameter appears only in negative positions, left of some arrow
     Negative,
     /// Type parameter appears in both positive and negative positions (invariant)
     Both,
@@ -2247,7 +2247,7 @@ impl AcornType {
                         // Determine the effective polarity based on the nested datatype's variance
                         let arg_positive = if i < variances.len() {
                             match &variances[i] {
-                                Variance::Negative => !positive, // Flip polarity for contravariant
+                                Variance::Negative => false,
                                 Variance::Both => {
                                     // Invariant: param appears in both positions if it's here
                                     let variance = arg.compute_variance_with_lookup(
@@ -2272,37 +2272,40 @@ impl AcornType {
                         ));
                     }
                 } else {
-                    // No variance info available, assume covariant
-                    for arg in type_args {
-                        combined = combined.merge(arg.compute_variance_with_lookup(
-                            param,
-                            positive,
-                            variance_lookup,
-                        ));
+                    // No variance info available, so the type could use its arguments in any way
+                    if type_args.iter().any(|arg| arg.contains_type_var(param)) {
+                        combined = Variance::Both;
                     }
                 }
                 combined
             }
-            AcornType::Family(_, args) => {
+            AcornType::Family(datatype, args) => {
+                // The type arguments work like the arguments of a plain datatype.
+                // The type can depend on its value arguments in any way.
+                let mut type_args = vec![];
                 let mut combined = Variance::None;
                 for arg in args {
-                    if let DependentTypeArg::Type(acorn_type) = arg {
-                        combined = combined.merge(acorn_type.compute_variance_with_lookup(
-                            param,
-                            positive,
-                            variance_lookup,
-                        ));
+                    match arg {
+                        DependentTypeArg::Type(acorn_type) => type_args.push(acorn_type.clone()),
+                        DependentTypeArg::Value(value) => {
+                            if value.contains_type_var(param) {
+                                combined = Variance::Both;
+                            }
+                        }
                     }
                 }
-                combined
+                let plain = AcornType::Data(datatype.clone(), type_args);
+                combined.merge(plain.compute_variance_with_lookup(param, positive, variance_lookup))
             }
             AcornType::Function(ftype) => {
-                // Function arguments are in NEGATIVE position, return is in POSITIVE position
+                // Function arguments are in NEGATIVE position, return is in POSITIVE position.
+                // Positive means strictly positive, so what is inside a function argument stays
+                // negative, also to the left of a second arrow.
                 let mut combined = Variance::None;
                 for arg_type in &ftype.arg_types {
                     combined = combined.merge(arg_type.compute_variance_with_lookup(
                         param,
-                        !positive,
+                        false,
                         variance_lookup,
                     ));
                 }
diff --git a/src/elaborator/environment/add_statement.rs b/src/elaborator/environment/add_statement.rs
index 00a9489..0ecfaaa 100644
--- a/src/elaborator/environment/add_statement.rs
+++ b/src/elaborator/environment/add_statement.rs
@@ -3,8 +3,8 @@ use std::sync::Arc;
 use tower_lsp::lsp_types::Range;
 
 use crate::elaborator::acorn_type::{
-    AcornType, Datatype, FamilyParam, FamilyParamKind, Telescope, TypeParam, Typeclass,
-    TypeclassInstance, ValueParam, Variance,
+    AcornType, Datatype, DependentTypeArg, FamilyParam, FamilyParamKind, Telescope, TypeParam,
+    Typeclass, TypeclassInstance, ValueParam, Variance,
 };
 use crate::elaborator::acorn_value::{AcornValue, BinaryOp};
 use crate::elaborator::binding_map::ConstructorInfo;
diff --git a/src/elaborator/environment/add_statement/datatypes.rs b/src/elaborator/environment/add_statement/datatypes.rs
index 0d51715..342fe2f 100644
--- a/src/elaborator/environment/add_statement/datatypes.rs
+++ b/src/elaborator/environment/add_statement/datatypes.rs
@@ -93,7 +93,7 @@ impl Environment {
                     combined = combined.merge(field_type.compute_variance_with_lookup(
                         param,
                         true,
-                        &|dt| self.bindings.get_datatype_variances(dt),
+                        &|dt| self.datatype_variances(project, dt),
                     ));
                 }
                 combined
@@ -659,27 +659,43 @@ impl Environment {
             return Err(statement.error("inductive type must have a base case"));
         }
 
-        let variances = type_params
-            .iter()
-            .map(|param| {
-                let mut combined = Variance::None;
-                for (_, type_list, _) in &constructors {
-                    for arg_type in type_list {
-                        combined = combined.merge(arg_type.compute_variance_with_lookup(
-                            param,
-                            true,
-                            &|dt| self.bindings.get_datatype_variances(dt),
-                        ));
-                    }
-                }
-                combined
-            })
-            .collect::<Vec<_>>();
-
         let datatype_for_variance = Datatype {
             module_id: self.module_id,
             name: inductive_statement.name_token.text().to_string(),
         };
+        // The type can be among its own constructor arguments, with its parameters in other
+        // places, so iterate until the variances are consistent with themselves.
+        let mut variances = vec![Variance::None; type_params.len()];
+        loop {
+            let next = type_params
+                .iter()
+                .zip(&variances)
+                .map(|(param, known)| {
+                    let mut combined = known.clone();
+                    for (_, type_list, _) in &constructors {
+                        for arg_type in type_list {
+                            combined = combined.merge(arg_type.compute_variance_with_lookup(
+                                param,
+                                true,
+                                &|dt| {
+                                    if dt == &datatype_for_variance {
+                                        Some(&variances)
+                                    } else {
+                                        self.datatype_variances(project, dt)
+                                    }
+                                },
+                            ));
+                        }
+                    }
+                    combined
+                })
+                .collect::<Vec<_>>();
+            if next == variances {
+                break;
+            }
+            variances = next;
+        }
+
         self.bindings
             .set_datatype_variances(&datatype_for_variance, variances);
         self.bindings
@@ -688,6 +704,7 @@ impl Environment {
         for (constructor_name, type_list, _) in &constructors {
             for arg_type in type_list {
                 self.check_strict_positivity(
+                    project,
                     arg_type,
                     &arb_inductive_type,
                     &arbitrary_params,
@@ -972,9 +989,24 @@ impl Environment {
         Ok(())
     }
 
+    /// The variances of a datatype's type parameters, wherever it was defined.
+    fn datatype_variances<'a>(
+        &'a self,
+        project: &'a dyn ProjectLookup,
+        datatype: &Datatype,
+    ) -> Option<&'a Vec<Variance>> {
+        if datatype.module_id == self.module_id {
+            return self.bindings.get_datatype_variances(datatype);
+        }
+        project
+            .get_bindings(datatype.module_id)?
+            .get_datatype_variances(datatype)
+    }
+
     /// Check that an inductive type appears only in strictly positive positions.
     fn check_strict_positivity(
         &self,
+        project: &dyn ProjectLookup,
         arg_type: &AcornType,
         inductive_type: &AcornType,
         inductive_params: &[AcornType],
@@ -984,37 +1016,67 @@ impl Environment {
             AcornType::Data(datatype, type_args) => {
                 for (i, arg) in type_args.iter().enumerate() {
                     if self.contains_inductive_type(arg, inductive_type, inductive_params) {
-                        if let Some(variances) = self.bindings.get_datatype_variances(datatype) {
-                            if i < variances.len() {
-                                match &variances[i] {
-                                    Variance::Negative | Variance::Both => {
-                                        return Err(source.error(&format!(
-                                            "inductive type appears in negative position (via type {})",
-                                            datatype.name
-                                        )));
-                                    }
-                                    Variance::Positive | Variance::None => {
-                                        self.check_strict_positivity(
-                                            arg,
-                                            inductive_type,
-                                            inductive_params,
-                                            source,
-                                        )?;
-                                    }
-                                }
+                        let variance = self
+                            .datatype_variances(project, datatype)
+                            .and_then(|variances| variances.get(i));
+                        match variance {
+                            Some(Variance::Positive) | Some(Variance::None) => {
+                                self.check_strict_positivity(
+                                    project,
+                                    arg,
+                                    inductive_type,
+                                    inductive_params,
+                                    source,
+                                )?;
+                            }
+                            Some(Variance::Negative) | Some(Variance::Both) => {
+                                return Err(source.error(&format!(
+                                    "inductive type appears in negative position (via type {})",
+                                    datatype.name
+                                )));
+                            }
+                            None => {
+                                return Err(source.error(&format!(
+                                    "inductive type may appear in negative position (via type {})",
+                                    datatype.name
+                                )));
                             }
-                        } else {
-                            self.check_strict_positivity(
-                                arg,
-                                inductive_type,
-                                inductive_params,
-                                source,
-                            )?;
                         }
                     }
                 }
                 Ok(())
             }
+            AcornType::Family(datatype, args) => {
+                let mut type_args = vec![];
+                for arg in args {
+                    match arg {
+                        DependentTypeArg::Type(t) => type_args.push(t.clone()),
+                        DependentTypeArg::Value(value) => {
+                            let mut found = false;
+                            value.for_each_type(&mut |t| {
+                                found |= self.contains_inductive_type(
+                                    t,
+                                    inductive_type,
+                                    inductive_params,
+                                )
+                            });
+                            if found {
+                                return Err(source.error(&format!(
+                                    "inductive type appears in a value argument (of type {})",
+                                    datatype.name
+                                )));
+                            }
+                        }
+                    }
+                }
+                self.check_strict_positivity(
+                    project,
+                    &AcornType::Data(datatype.clone(), type_args),
+                    inductive_type,
+                    inductive_params,
+                    source,
+                )
+            }
             AcornType::Function(ftype) => {
                 for arg in &ftype.arg_types {
                     if self.contains_inductive_type(arg, inductive_type, inductive_params) {
@@ -1024,6 +1086,7 @@ impl Environment {
                     }
                 }
                 self.check_strict_positivity(
+                    project,
                     &ftype.return_type,
                     inductive_type,
                     inductive_params,
@@ -1053,6 +1116,18 @@ impl Environment {
             AcornType::Data(_, type_args) => type_args
                 .iter()
                 .any(|t| self.contains_inductive_type(t, inductive_type, inductive_params)),
+            AcornType::Family(_, args) => args.iter().any(|arg| match arg {
+                DependentTypeArg::Type(t) => {
+                    self.contains_inductive_type(t, inductive_type, inductive_params)
+                }
+                DependentTypeArg::Value(value) => {
+                    let mut found = false;
+                    value.for_each_type(&mut |t| {
+                        found |= self.contains_inductive_type(t, inductive_type, inductive_params)
+                    });
+                    found
+                }
+            }),
             AcornType::Function(ftype) => {
                 ftype
                     .arg_types
-- 
2.43.0


From 1b55679fa9a2f5356597bdd04ec4b01b2cd6d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:00 +0000
Subject: [PATCH 16/36] fix: shift instance definitions into typeclass
 conditions

The conditions an instance has to prove are the typeclass axioms with the
instance's definitions put in place of the attributes. The definitions were not
shifted below the axiom's quantifiers, so a definition's own argument became the
axiom's first variable, and types could become instances of typeclasses whose
axioms are false for them.
---
 src/elaborator/acorn_type.rs                  |  6 +++---
 src/elaborator/acorn_value.rs                 | 19 +++++++++----------
 .../environment/add_statement/typeclasses.rs  |  2 +-
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 4fe118f..3d3a3f1 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -1893,16 +1893,16 @@ impl AcornType {
         stack_size: AtomId,
         replacer: &impl Fn(&crate::elaborator::acorn_value::ConstantInstance) -> Option<AcornValue>,
     ) -> AcornType {
-        self.replace_constants_with_base_stack(stack_size, 0, replacer)
+        self.replace_constants_with_base_stack(stack_size, None, replacer)
     }
 
     pub(crate) fn replace_constants_with_base_stack(
         &self,
         stack_size: AtomId,
-        base_stack_size: AtomId,
+        base_stack_size: Option<AtomId>,
         replacer: &impl Fn(&crate::elaborator::acorn_value::ConstantInstance) -> Option<AcornValue>,
     ) -> AcornType {
-        assert!(stack_size >= base_stack_size);
+        assert!(base_stack_size.is_none_or(|base| stack_size >= base));
         match self {
             AcornType::Family(datatype, args) => AcornType::new_datatype_application(
                 datatype.clone(),
diff --git a/src/elaborator/acorn_value.rs b/src/elaborator/acorn_value.rs
index 48dd30b..16bcbf8 100644
--- a/src/elaborator/acorn_value.rs
+++ b/src/elaborator/acorn_value.rs
@@ -1297,7 +1297,7 @@ impl AcornValue {
     fn replace_constants_in_binder_types(
         binder_types: &[AcornType],
         stack_size: AtomId,
-        base_stack_size: AtomId,
+        base_stack_size: Option<AtomId>,
         replacer: &impl Fn(&ConstantInstance) -> Option<AcornValue>,
     ) -> Vec<AcornType> {
         let mut current_stack_size = stack_size;
@@ -1914,16 +1914,18 @@ impl AcornValue {
         stack_size: AtomId,
         replacer: &impl Fn(&ConstantInstance) -> Option<AcornValue>,
     ) -> AcornValue {
-        self.replace_constants_with_base_stack(stack_size, 0, replacer)
+        self.replace_constants_with_base_stack(stack_size, None, replacer)
     }
 
+    /// With a base stack size, the replacements are values on a stack of that size, so they get
+    /// shifted to where the constant occurs. Without one, they are used exactly as they are.
     pub(crate) fn replace_constants_with_base_stack(
         &self,
         stack_size: AtomId,
-        base_stack_size: AtomId,
+        base_stack_size: Option<AtomId>,
         replacer: &impl Fn(&ConstantInstance) -> Option<AcornValue>,
     ) -> AcornValue {
-        assert!(stack_size >= base_stack_size);
+        assert!(base_stack_size.is_none_or(|base| stack_size >= base));
         match self {
             AcornValue::Variable(i, var_type) => AcornValue::Variable(
                 *i,
@@ -2079,12 +2081,9 @@ impl AcornValue {
                             .collect(),
                     })
                 },
-                |replacement| {
-                    if base_stack_size == 0 {
-                        replacement
-                    } else {
-                        replacement.insert_stack(base_stack_size, stack_size - base_stack_size)
-                    }
+                |replacement| match base_stack_size {
+                    None => replacement,
+                    Some(base) => replacement.insert_stack(base, stack_size - base),
                 },
             ),
             AcornValue::IfThenElse(cond, if_value, else_value) => AcornValue::IfThenElse(
diff --git a/src/elaborator/environment/add_statement/typeclasses.rs b/src/elaborator/environment/add_statement/typeclasses.rs
index 9b5a126..19a52d5 100644
--- a/src/elaborator/environment/add_statement/typeclasses.rs
+++ b/src/elaborator/environment/add_statement/typeclasses.rs
@@ -485,7 +485,7 @@ impl Environment {
                 let family_value_stack_size = family_scope.value_params().len() as AtomId;
                 let condition = unsafe_condition.replace_constants_with_base_stack(
                     family_value_stack_size,
-                    family_value_stack_size,
+                    Some(family_value_stack_size),
                     &|ci| {
                         let name = match ci.to_defined_instance_name(&typeclass, &instance_datatype)
                         {
-- 
2.43.0


From 133e137fa3a3e6d8174e83441cddbd51bc20fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:43 +0000
Subject: [PATCH 17/36] fix: reject a second instance of a typeclass for the
 same datatype

---
 src/elaborator/binding_map.rs                 | 32 +++++++++++++++++++
 .../environment/add_statement/typeclasses.rs  | 10 ++++++
 2 files changed, 42 insertions(+)

diff --git a/src/elaborator/binding_map.rs b/src/elaborator/binding_map.rs
index 3d7661c..429857c 100644
--- a/src/elaborator/binding_map.rs
+++ b/src/elaborator/binding_map.rs
@@ -1213,6 +1213,12 @@ impl BindingMap {
                 .or_insert_with(DatatypeDefinition::new)
                 .typeclasses
                 .insert(instance.typeclass.clone(), self.module_id);
+        } else {
+            self.datatype_defs
+                .entry(instance.datatype.clone())
+                .or_insert_with(DatatypeDefinition::new)
+                .family_typeclasses
+                .insert(instance.typeclass.clone(), self.module_id);
         }
         self.datatype_defs
             .entry(instance.datatype.clone())
@@ -1221,6 +1227,15 @@ impl BindingMap {
             .push(instance);
     }
 
+    /// Whether some instance statement, here or in an imported module, already relates this
+    /// datatype and this typeclass. A second one would define the same attributes again.
+    pub fn has_instance_statement(&self, datatype: &Datatype, typeclass: &Typeclass) -> bool {
+        self.datatype_defs.get(datatype).is_some_and(|info| {
+            info.typeclasses.contains_key(typeclass)
+                || info.family_typeclasses.contains_key(typeclass)
+        })
+    }
+
     pub fn is_instance_of_type(&self, ty: &AcornType, typeclass: &Typeclass) -> bool {
         let Ok(datatype) = ty.get_datatype(&Token::empty()) else {
             return false;
@@ -3194,6 +3209,9 @@ struct DatatypeDefinition {
     /// Maps typeclasses this datatype is an instance of to the module with the instance statement.
     typeclasses: HashMap<Typeclass, ModuleId>,
 
+    /// The same, for parameterized instance statements.
+    family_typeclasses: HashMap<Typeclass, ModuleId>,
+
     /// Parameterized instance schemes for this datatype.
     typeclass_instances: Vec<TypeclassInstance>,
 
@@ -3230,6 +3248,7 @@ impl DatatypeDefinition {
         DatatypeDefinition {
             attributes: BTreeMap::new(),
             typeclasses: HashMap::new(),
+            family_typeclasses: HashMap::new(),
             typeclass_instances: vec![],
             alias: None,
             doc_comments: Vec::new(),
@@ -3273,6 +3292,19 @@ impl DatatypeDefinition {
                 }
             }
         }
+        for (typeclass, other_module_id) in info.family_typeclasses.iter() {
+            if let Some(module_id) = self
+                .family_typeclasses
+                .insert(typeclass.clone(), *other_module_id)
+            {
+                if module_id != *other_module_id {
+                    return Err(source.error(&format!(
+                        "instance relation {}: {} is defined in two different modules",
+                        typename, typeclass.name
+                    )));
+                }
+            }
+        }
         for imported_instance in &info.typeclass_instances {
             if !self.typeclass_instances.contains(imported_instance) {
                 self.typeclass_instances.push(imported_instance.clone());
diff --git a/src/elaborator/environment/add_statement/typeclasses.rs b/src/elaborator/environment/add_statement/typeclasses.rs
index 19a52d5..32e45e2 100644
--- a/src/elaborator/environment/add_statement/typeclasses.rs
+++ b/src/elaborator/environment/add_statement/typeclasses.rs
@@ -348,6 +348,16 @@ impl Environment {
             .map(|param| AcornType::Arbitrary(param.clone()))
             .collect();
 
+        if self
+            .bindings
+            .has_instance_statement(&instance_datatype, &typeclass)
+        {
+            return Err(statement.error(&format!(
+                "'{}' is already an instance of '{}'",
+                instance_statement.type_name, typeclass.name
+            )));
+        }
+
         for base_typeclass in self.bindings.get_extends(&typeclass) {
             if !self
                 .bindings
-- 
2.43.0


From 2abdf762c6927c622bde422898b64307ac382cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:05 +0000
Subject: [PATCH 18/36] fix: state typeclass conditions over an instance's
 default attributes

---
 .../environment/add_statement/typeclasses.rs  | 85 ++++++++++---------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/elaborator/environment/add_statement/typeclasses.rs b/src/elaborator/environment/add_statement/typeclasses.rs
index 32e45e2..cf4e043 100644
--- a/src/elaborator/environment/add_statement/typeclasses.rs
+++ b/src/elaborator/environment/add_statement/typeclasses.rs
@@ -472,7 +472,7 @@ impl Environment {
         }
 
         let attributes = self.bindings.get_typeclass_attributes(&typeclass, project);
-        let mut conditions = vec![];
+        let mut condition_names = vec![];
         let mut defaults_to_add = vec![];
 
         for (attr_name, (_module_id, root_tc)) in attributes.iter() {
@@ -484,45 +484,7 @@ impl Environment {
                 ConstantName::typeclass_attr(typeclass.module_id, typeclass.clone(), attr_name);
             let tc_bindings = self.bindings.get_bindings(typeclass.module_id, project);
             if tc_bindings.is_theorem(&tc_attr_name) {
-                let unsafe_condition = self.bindings.unsafe_instantiate_condition(
-                    &typeclass,
-                    &attr_name,
-                    &instance_type,
-                    family_scope.value_params().len() as AtomId,
-                    project,
-                    statement,
-                )?;
-                let family_value_stack_size = family_scope.value_params().len() as AtomId;
-                let condition = unsafe_condition.replace_constants_with_base_stack(
-                    family_value_stack_size,
-                    Some(family_value_stack_size),
-                    &|ci| {
-                        let name = match ci.to_defined_instance_name(&typeclass, &instance_datatype)
-                        {
-                            Some(name) => name,
-                            None => return None,
-                        };
-                        let definition = self.bindings.get_definition(&name)?.clone();
-                        let replacements: Vec<_> = family_scope
-                            .type_params()
-                            .iter()
-                            .cloned()
-                            .zip(family_type_args.iter().cloned())
-                            .map(|(param, arg)| (param.name, arg))
-                            .collect();
-                        let definition = definition
-                            .instantiate_with_ambient_stack(family_value_stack_size, &replacements);
-                        if family_value_args.is_empty() {
-                            Some(definition)
-                        } else {
-                            Some(
-                                AcornValue::apply(definition, family_value_args.clone())
-                                    .expand_lambdas(family_value_stack_size),
-                            )
-                        }
-                    },
-                );
-                conditions.push(condition);
+                condition_names.push(attr_name.clone());
                 continue;
             }
 
@@ -624,6 +586,49 @@ impl Environment {
             pairs.push((tc_resolved, instance_impl, Some(public_definition)));
         }
 
+        // The conditions speak of the definitions above, including the defaults.
+        let mut conditions = vec![];
+        for attr_name in &condition_names {
+            let unsafe_condition = self.bindings.unsafe_instantiate_condition(
+                &typeclass,
+                attr_name,
+                &instance_type,
+                family_scope.value_params().len() as AtomId,
+                project,
+                statement,
+            )?;
+            let family_value_stack_size = family_scope.value_params().len() as AtomId;
+            let condition = unsafe_condition.replace_constants_with_base_stack(
+                family_value_stack_size,
+                Some(family_value_stack_size),
+                &|ci| {
+                    let name = match ci.to_defined_instance_name(&typeclass, &instance_datatype) {
+                        Some(name) => name,
+                        None => return None,
+                    };
+                    let definition = self.bindings.get_definition(&name)?.clone();
+                    let replacements: Vec<_> = family_scope
+                        .type_params()
+                        .iter()
+                        .cloned()
+                        .zip(family_type_args.iter().cloned())
+                        .map(|(param, arg)| (param.name, arg))
+                        .collect();
+                    let definition = definition
+                        .instantiate_with_ambient_stack(family_value_stack_size, &replacements);
+                    if family_value_args.is_empty() {
+                        Some(definition)
+                    } else {
+                        Some(
+                            AcornValue::apply(definition, family_value_args.clone())
+                                .expand_lambdas(family_value_stack_size),
+                        )
+                    }
+                },
+            );
+            conditions.push(condition);
+        }
+
         let instance_source = Source::instance(
             self.module_id,
             statement.range(),
-- 
2.43.0


From 5b9085f97ebb9c996ac636aae2d763eb97c7440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:05 +0000
Subject: [PATCH 19/36] fix: report an instance attribute without a definition
 instead of panicking

---
 src/elaborator/environment/add_statement/definitions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elaborator/environment/add_statement/definitions.rs b/src/elaborator/environment/add_statement/definitions.rs
index 7e29dba..5a9b072 100644
--- a/src/elaborator/environment/add_statement/definitions.rs
+++ b/src/elaborator/environment/add_statement/definitions.rs
@@ -691,6 +691,12 @@ impl Environment {
                 acorn_type,
             );
         }
+        if value.is_none() && defined_name.as_instance().is_some() {
+            return Err(let_statement
+                .value
+                .first_token()
+                .error("instance attributes must have a definition"));
+        }
         let acorn_type = if explicit_value_param_types.is_empty() {
             acorn_type
         } else {
@@ -1058,6 +1064,9 @@ impl Environment {
             return Ok(());
         }
 
+        if defined_name.as_instance().is_some() {
+            return Err(statement.error("instance attributes must have a definition"));
+        }
         let new_axiom_type = AcornType::functional_from_scoped_context(
             arg_types,
             value_type,
-- 
2.43.0


From cbd3bed354d3a0c441721c0548b7412f9eeb414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:39 +0000
Subject: [PATCH 20/36] fix: report a statement that cannot be lowered instead
 of dropping it

A claim whose goal failed to lower (for example one using the try operator)
was silently dropped: the module built without any diagnostic.
---
 src/elaborator/environment/mod.rs | 15 ++++++++-------
 src/elaborator/lowered_module.rs  |  3 ++-
 src/loader/module_loader.rs       | 16 +++++++++++++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/elaborator/environment/mod.rs b/src/elaborator/environment/mod.rs
index 69ea67f..45e627a 100644
--- a/src/elaborator/environment/mod.rs
+++ b/src/elaborator/environment/mod.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 
 use tower_lsp::lsp_types::Range;
 
+use crate::builder::BuildError;
 use crate::elaborator::acorn_type::{AcornType, Datatype, TypeParam};
 use crate::elaborator::acorn_value::{AcornValue, BinaryOp};
 use crate::elaborator::binding_map::BindingMap;
@@ -837,7 +838,7 @@ impl Environment {
     /// Even on error, the final kernel context is set to what was achieved before the error.
     pub fn run_lowering_pass(&mut self, project: &dyn ProjectLookup) -> LoweringResult {
         let mut kernel_context = KernelContext::new();
-        let mut first_error: Option<String> = None;
+        let mut first_error: Option<BuildError> = None;
         let mut imported_modules = HashSet::new();
         let mut lowered_module = LoweredModule::new(self.module_id, self.binding_states[0].clone());
 
@@ -906,7 +907,7 @@ impl Environment {
         base_kernel_context: &KernelContext,
         initial_imported_modules: &HashSet<ModuleId>,
         project: &dyn ProjectLookup,
-        first_error: &mut Option<String>,
+        first_error: &mut Option<BuildError>,
         lowered_module: &mut LoweredModule,
         top_level: bool,
     ) -> Vec<LoweredItem> {
@@ -950,7 +951,7 @@ impl Environment {
                         }
                         Err(e) => {
                             if first_error.is_none() {
-                                *first_error = Some(e.message);
+                                *first_error = Some(e);
                             }
                         }
                     }
@@ -982,14 +983,14 @@ impl Environment {
                                 }
                                 Err(e) => {
                                     if first_error.is_none() {
-                                        *first_error = Some(e.message);
+                                        *first_error = Some(e);
                                     }
                                 }
                             }
                         }
                         Err(e) => {
                             if first_error.is_none() {
-                                *first_error = Some(e.message);
+                                *first_error = Some(e);
                             }
                             // Try to lower the post-fact anyway so later nodes see the same
                             // partial state the old pass produced after a lowering error.
@@ -997,7 +998,7 @@ impl Environment {
                                 Ok(_) => {}
                                 Err(e) => {
                                     if first_error.is_none() {
-                                        *first_error = Some(e.message);
+                                        *first_error = Some(e);
                                     }
                                 }
                             }
@@ -1030,7 +1031,7 @@ impl Environment {
                             }
                             Err(e) => {
                                 if first_error.is_none() {
-                                    *first_error = Some(e.message);
+                                    *first_error = Some(e);
                                 }
                             }
                         }
diff --git a/src/elaborator/lowered_module.rs b/src/elaborator/lowered_module.rs
index b189562..5db4a1a 100644
--- a/src/elaborator/lowered_module.rs
+++ b/src/elaborator/lowered_module.rs
@@ -1,5 +1,6 @@
 use tower_lsp::lsp_types::Range;
 
+use crate::builder::BuildError;
 use crate::elaborator::binding_map::BindingMap;
 use crate::elaborator::goal::Goal;
 use crate::elaborator::lowering::{LoweredFact, LoweredGoal};
@@ -357,5 +358,5 @@ impl LoweredModule {
 
 pub struct LoweringResult {
     pub module: LoweredModule,
-    pub error: Option<String>,
+    pub error: Option<BuildError>,
 }
diff --git a/src/loader/module_loader.rs b/src/loader/module_loader.rs
index 3f7c997..4470468 100644
--- a/src/loader/module_loader.rs
+++ b/src/loader/module_loader.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use crate::elaborator::environment::Environment;
-use crate::elaborator::error;
+use crate::elaborator::error::{self, ErrorContext};
 use crate::elaborator::lowered_module::{LoweredModule, ModuleExport};
 use crate::loader::parsed_module::ParsedModule;
 use crate::module::ModuleId;
@@ -38,11 +38,21 @@ pub fn elaborate_and_lower_module(
     }
     env.sync_current_binding_state();
 
-    for statement in parsed.statements {
-        env.add_statement(project, &statement)?;
+    for statement in &parsed.statements {
+        env.add_statement(project, statement)?;
     }
 
     let lowering = env.run_lowering_pass(project);
+    if let Some(e) = lowering.error {
+        let statement = parsed
+            .statements
+            .iter()
+            .find(|s| s.range().start <= e.range.start && e.range.start <= s.range().end)
+            .or(parsed.statements.last());
+        if let Some(statement) = statement {
+            return Err(statement.error(&e.message));
+        }
+    }
     if !usage_mode.keeps_ide_metadata() {
         env.discard_ide_metadata();
     }
-- 
2.43.0


From a531b9ec18cfab4a39255b44d6e7d5b5b73329e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 21/36] fix: negate a match condition under its quantifiers

When the scrutinee of a match is itself a match, the clauses of the case's
condition have universal variables of their own. Negating them literal by
literal kept those universal, so the lowered clauses were stronger than the
statement and false theorems became provable.
---
 src/kernel/clausifier.rs | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/src/kernel/clausifier.rs b/src/kernel/clausifier.rs
index ded95f8..5d4fb60 100644
--- a/src/kernel/clausifier.rs
+++ b/src/kernel/clausifier.rs
@@ -41,14 +41,6 @@ fn clauses_and(mut left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiteral
     left
 }
 
-fn clauses_and_all(formulas: impl Iterator<Item = ClauseLiterals>) -> ClauseLiterals {
-    let mut result = clauses_true();
-    for formula in formulas {
-        result = clauses_and(result, formula);
-    }
-    result
-}
-
 fn clauses_or(left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiterals {
     let mut result = vec![];
     for left_clause in &left {
@@ -61,22 +53,6 @@ fn clauses_or(left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiterals {
     result
 }
 
-fn clauses_or_all(formulas: impl Iterator<Item = ClauseLiterals>) -> ClauseLiterals {
-    let mut result = clauses_false();
-    for formula in formulas {
-        result = clauses_or(result, formula);
-    }
-    result
-}
-
-fn negate_clauses(clauses: &ClauseLiterals) -> ClauseLiterals {
-    clauses_or_all(
-        clauses.iter().map(|clause| {
-            clauses_and_all(clause.iter().map(|lit| clauses_from_literal(lit.negate())))
-        }),
-    )
-}
-
 fn clauses_to_literal(clauses: ClauseLiterals) -> Option<Literal> {
     if clauses.is_empty() {
         Some(Literal::true_value())
@@ -1161,10 +1137,10 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                let condition = self.term_eq_to_clause_set(
+                let not_condition = self.term_eq_to_clause_set(
                     &scrutinee,
                     &pattern,
-                    false,
+                    true,
                     stack,
                     next_var_id,
                     context,
@@ -1177,7 +1153,7 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                answer = clauses_and(answer, clauses_or(negate_clauses(&condition), conclusion));
+                answer = clauses_and(answer, clauses_or(not_condition, conclusion));
 
                 stack.truncate(stack_len);
             }
@@ -1197,10 +1173,10 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                let condition = self.term_eq_to_clause_set(
+                let not_condition = self.term_eq_to_clause_set(
                     &scrutinee,
                     &pattern,
-                    false,
+                    true,
                     stack,
                     next_var_id,
                     context,
@@ -1213,7 +1189,7 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                answer = clauses_and(answer, clauses_or(negate_clauses(&condition), conclusion));
+                answer = clauses_and(answer, clauses_or(not_condition, conclusion));
 
                 stack.truncate(stack_len);
             }
-- 
2.43.0


From 5d0fdfda18102105789fe2121c66e8f53091fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:54 +0000
Subject: [PATCH 22/36] fix: lower an if whose condition is not a literal

A Bool-valued if with a compound condition inside a match failed to lower
('condition is too complicated'), and the statement was dropped.
---
 src/kernel/clausifier.rs | 42 ++++++----------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/src/kernel/clausifier.rs b/src/kernel/clausifier.rs
index 5d4fb60..a4ab9d0 100644
--- a/src/kernel/clausifier.rs
+++ b/src/kernel/clausifier.rs
@@ -53,26 +53,6 @@ fn clauses_or(left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiterals {
     result
 }
 
-fn clauses_to_literal(clauses: ClauseLiterals) -> Option<Literal> {
-    if clauses.is_empty() {
-        Some(Literal::true_value())
-    } else if clauses.len() == 1 && clauses[0].is_empty() {
-        Some(Literal::false_value())
-    } else if clauses.len() == 1 && clauses[0].len() == 1 {
-        Some(
-            clauses
-                .into_iter()
-                .next()
-                .unwrap()
-                .into_iter()
-                .next()
-                .unwrap(),
-        )
-    } else {
-        None
-    }
-}
-
 fn clauses_as_signed_term(clauses: &ClauseLiterals) -> Option<(&Term, bool)> {
     if clauses.len() != 1 || clauses[0].len() != 1 {
         return None;
@@ -110,18 +90,6 @@ fn clauses_into_clauses_with_pinned(
         .collect()
 }
 
-fn clause_set_if(
-    condition: Literal,
-    then_clauses: ClauseLiterals,
-    else_clauses: ClauseLiterals,
-) -> ClauseLiterals {
-    let not_condition = clauses_from_literal(condition.negate());
-    let condition = clauses_from_literal(condition);
-    let then_implication = clauses_or(not_condition, then_clauses);
-    let else_implication = clauses_or(condition, else_clauses);
-    clauses_and(then_implication, else_implication)
-}
-
 /// A Clausifier holds state for a single clausification operation.
 /// It combines mutable kernel access with operation-scoped state like `type_var_map`.
 struct Clausifier<'a> {
@@ -830,14 +798,16 @@ impl<'a> Clausifier<'a> {
                 if let Some(args) = self.split_symbol_application(term, Symbol::Ite, 4) {
                     let cond_clauses =
                         self.term_to_clause_set(&args[1], false, stack, next_var_id, context)?;
-                    let Some(cond_lit) = clauses_to_literal(cond_clauses) else {
-                        return Err("term 'ite' condition is too complicated".to_string());
-                    };
+                    let not_cond_clauses =
+                        self.term_to_clause_set(&args[1], true, stack, next_var_id, context)?;
                     let then_clauses =
                         self.term_to_clause_set(&args[2], negate, stack, next_var_id, context)?;
                     let else_clauses =
                         self.term_to_clause_set(&args[3], negate, stack, next_var_id, context)?;
-                    return Ok(clause_set_if(cond_lit, then_clauses, else_clauses));
+                    return Ok(clauses_and(
+                        clauses_or(not_cond_clauses, then_clauses),
+                        clauses_or(cond_clauses, else_clauses),
+                    ));
                 }
 
                 if let Some((function, args)) = term.as_ref().split_application_multi() {
-- 
2.43.0


From 7b3f9f2db6f8af4d96bf9101c827bdc957b52744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:44 +0000
Subject: [PATCH 23/36] fix: make a match's pattern variables arbitrary along
 with the rest of it

---
 src/elaborator/acorn_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elaborator/acorn_value.rs b/src/elaborator/acorn_value.rs
index 16bcbf8..00f3567 100644
--- a/src/elaborator/acorn_value.rs
+++ b/src/elaborator/acorn_value.rs
@@ -2754,7 +2754,7 @@ impl AcornValue {
                 let new_cases = cases
                     .iter()
                     .map(|case| MatchCase {
-                        new_vars: case.new_vars.clone(),
+                        new_vars: case.new_vars.iter().map(|t| t.to_arbitrary()).collect(),
                         pattern: case.pattern.to_arbitrary(),
                         result: case.result.to_arbitrary(),
                         constructor_index: case.constructor_index,
-- 
2.43.0


From 3f4555f84c34380a389671918fa4b7624bcaf654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 24/36] fix: count a dependent type's value parameters when
 checking termination

---
 src/elaborator/binding_map.rs         | 25 ++++++++++++++-----------
 src/elaborator/termination_checker.rs | 14 +++++++++++---
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/elaborator/binding_map.rs b/src/elaborator/binding_map.rs
index 429857c..b07d837 100644
--- a/src/elaborator/binding_map.rs
+++ b/src/elaborator/binding_map.rs
@@ -2400,10 +2400,10 @@ impl BindingMap {
                 None => AcornType::Bool,
             };
 
+            let ambient_value_param_count = datatype_value_params
+                .map(|params| params.len() as AtomId)
+                .unwrap_or(0);
             if let Some(function_name) = function_name {
-                let ambient_value_param_count = datatype_value_params
-                    .map(|params| params.len() as AtomId)
-                    .unwrap_or(0);
                 let mut fn_type = AcornType::functional_from_scoped_context(
                     internal_arg_types.clone(),
                     internal_value_type.clone(),
@@ -2457,8 +2457,11 @@ impl BindingMap {
                 )?;
 
                 if let Some(function_name) = function_name {
-                    let mut checker =
-                        TerminationChecker::new(function_name.clone(), internal_arg_types.len());
+                    let mut checker = TerminationChecker::new(
+                        function_name.clone(),
+                        ambient_value_param_count as usize,
+                        internal_arg_types.len(),
+                    );
                     if !checker.check(&value) {
                         return Err(value_expr
                             .error("the elaborator thinks this looks like an infinite loop"));
@@ -2617,10 +2620,10 @@ impl BindingMap {
             let internal_value_type =
                 evaluator.evaluate_type_with_stack(&mut stack, value_type_expr)?;
 
+            let ambient_value_param_count = datatype_value_params
+                .map(|params| params.len() as AtomId)
+                .unwrap_or(0);
             if let Some(function_name) = function_name {
-                let ambient_value_param_count = datatype_value_params
-                    .map(|params| params.len() as AtomId)
-                    .unwrap_or(0);
                 let mut fn_type = AcornType::functional_from_scoped_context(
                     internal_arg_types.clone(),
                     internal_value_type.clone(),
@@ -2795,10 +2798,10 @@ impl BindingMap {
             let (arg_names, internal_arg_types) =
                 evaluator.bind_args(&mut stack, args, class_type)?;
 
+            let ambient_value_param_count = datatype_value_params
+                .map(|params| params.len() as AtomId)
+                .unwrap_or(0);
             if let Some(function_name) = function_name {
-                let ambient_value_param_count = datatype_value_params
-                    .map(|params| params.len() as AtomId)
-                    .unwrap_or(0);
                 let mut fn_type = AcornType::functional_from_scoped_context(
                     internal_arg_types.clone(),
                     AcornType::Bool,
diff --git a/src/elaborator/termination_checker.rs b/src/elaborator/termination_checker.rs
index a12c699..511922c 100644
--- a/src/elaborator/termination_checker.rs
+++ b/src/elaborator/termination_checker.rs
@@ -8,6 +8,10 @@ pub struct TerminationChecker {
     // The function whose definition we are checking.
     name: ConstantName,
 
+    // How many value parameters of the enclosing type precede the function's arguments on the
+    // stack. The ith argument to the function is the variable x_{num_ambient + i}.
+    num_ambient: usize,
+
     // substructure[i] = j if x_i is a ubstructure of x_j, due to match relationships.
     // j is the smallest such j.
     // This includes the non-strict substructures.
@@ -19,11 +23,14 @@ pub struct TerminationChecker {
 }
 
 impl TerminationChecker {
-    pub fn new(name: ConstantName, num_args: usize) -> Self {
-        let substructure_map = (0..num_args).map(|i| Some(i as AtomId)).collect();
+    pub fn new(name: ConstantName, num_ambient: usize, num_args: usize) -> Self {
+        let substructure_map = (0..num_ambient + num_args)
+            .map(|i| Some(i as AtomId))
+            .collect();
         let always_strict_sub = vec![true; num_args];
         TerminationChecker {
             name,
+            num_ambient,
             substructure_map,
             always_strict_sub,
         }
@@ -99,7 +106,8 @@ impl TerminationChecker {
                         let arg = &app.args[i];
                         let strict_sub = if let AcornValue::Variable(j, _) = arg {
                             let j = *j as usize;
-                            i != j && self.substructure_map[j] == Some(i as AtomId)
+                            let original = self.num_ambient + i;
+                            original != j && self.substructure_map[j] == Some(original as AtomId)
                         } else {
                             false
                         };
-- 
2.43.0


From 0cdb047dc6de6bc96e7b59d13b358ab097d633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:48 +0000
Subject: [PATCH 25/36] fix: a postfix expression starts where its operand
 starts

---
 src/syntax/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/syntax/expression.rs b/src/syntax/expression.rs
index b1e7acc..423eb17 100644
--- a/src/syntax/expression.rs
+++ b/src/syntax/expression.rs
@@ -452,7 +452,13 @@ impl Expression {
     pub fn first_token(&self) -> &Token {
         match self {
             Expression::Singleton(token) => token,
-            Expression::Unary(token, _) => token,
+            Expression::Unary(token, subexpression) => {
+                if token.token_type.is_postfix() {
+                    subexpression.first_token()
+                } else {
+                    token
+                }
+            }
             Expression::Binary(left, _, _) => left.first_token(),
             Expression::Concatenation(left, _) => left.first_token(),
             Expression::Grouping(left_paren, _, _) => left_paren,
-- 
2.43.0


From 0031e1d8cfa58a61a1c2f24f8b1afe71e657520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:48 +0000
Subject: [PATCH 26/36] fix: a minus sign after a postfix operator is a
 subtraction

---
 src/syntax/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax/expression.rs b/src/syntax/expression.rs
index 423eb17..6e33069 100644
--- a/src/syntax/expression.rs
+++ b/src/syntax/expression.rs
@@ -1233,12 +1233,12 @@ fn parse_partial_expressions(
                 // This could either be unary or binary.
                 // Look at the previous token to decide.
                 if match partials.back() {
-                    Some(PartialExpression::Expression(_)) => {
+                    Some(PartialExpression::Expression(_))
+                    | Some(PartialExpression::Postfix(_)) => {
                         // An expression can't be followed by a unary operator.
                         false
                     }
                     Some(PartialExpression::Unary(_))
-                    | Some(PartialExpression::Postfix(_))
                     | Some(PartialExpression::Implicit(_))
                     | Some(PartialExpression::Binary(_))
                     | None => {
-- 
2.43.0


From 25968ecd82a9c9a4520c91490c1213881cd9e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:04 +0000
Subject: [PATCH 27/36] fix: print the parentheses an operand needs to be read
 back

---
 src/code_generator.rs    |  4 ++--
 src/syntax/expression.rs | 43 ++++++++++++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/code_generator.rs b/src/code_generator.rs
index c49b94e..b2eae4f 100644
--- a/src/code_generator.rs
+++ b/src/code_generator.rs
@@ -91,13 +91,13 @@ impl CodeGenerator<'_> {
             )
         };
 
-        if left_expr.top_level_precedence(false) < op.token_type().binary_precedence()
+        if left_expr.needs_parens_on_left_of(&op.token_type())
             || matches!(left, AcornValue::IfThenElse(_, _, _))
         {
             left_expr = paren(left_expr);
         }
 
-        if right_expr.top_level_precedence(true) <= op.token_type().binary_precedence()
+        if right_expr.needs_parens_on_right_of(&op.token_type())
             || matches!(right, AcornValue::IfThenElse(_, _, _))
         {
             right_expr = paren(right_expr);
diff --git a/src/syntax/expression.rs b/src/syntax/expression.rs
index 6e33069..f45b593 100644
--- a/src/syntax/expression.rs
+++ b/src/syntax/expression.rs
@@ -659,7 +659,12 @@ impl Expression {
 
     // Generates a unary expression, parenthesizing if necessary according to precedence.
     pub fn generate_unary(op: TokenType, mut expr: Expression) -> Expression {
-        if expr.top_level_precedence(true) < op.unary_precedence() {
+        let needs_parens = if op.is_postfix() {
+            expr.top_level_precedence() < op.postfix_precedence()
+        } else {
+            expr.exposed_precedence() <= op.unary_precedence()
+        };
+        if needs_parens {
             expr = Expression::Grouping(
                 TokenType::LeftParen.generate(),
                 Box::new(expr),
@@ -675,14 +680,14 @@ impl Expression {
         op: TokenType,
         mut right: Expression,
     ) -> Expression {
-        if left.top_level_precedence(false) < op.binary_precedence() {
+        if left.needs_parens_on_left_of(&op) {
             left = Expression::Grouping(
                 TokenType::LeftParen.generate(),
                 Box::new(left),
                 TokenType::RightParen.generate(),
             );
         }
-        if right.top_level_precedence(true) <= op.binary_precedence() {
+        if right.needs_parens_on_right_of(&op) {
             right = Expression::Grouping(
                 TokenType::LeftParen.generate(),
                 Box::new(right),
@@ -744,9 +749,7 @@ impl Expression {
     }
 
     // The precedence this expression uses at the top level.
-    // In some situations, unary operators will be parsed regardless of precedence, so they essentially
-    // use maximum precedence. In this situation `unary_counts_as_max` is true.
-    pub fn top_level_precedence(&self, unary_counts_as_max: bool) -> i8 {
+    pub fn top_level_precedence(&self) -> i8 {
         match self {
             Expression::Singleton(_)
             | Expression::Grouping(..)
@@ -759,8 +762,8 @@ impl Expression {
                 i8::MAX
             }
             Expression::Unary(token, _) => {
-                if unary_counts_as_max {
-                    i8::MAX
+                if token.token_type.is_postfix() {
+                    token.postfix_precedence()
                 } else {
                     token.unary_precedence()
                 }
@@ -770,6 +773,30 @@ impl Expression {
         }
     }
 
+    // The lowest precedence a prefix operator before this expression leaves exposed: prefix
+    // operators are parsed regardless of precedence, but not what they apply to.
+    fn exposed_precedence(&self) -> i8 {
+        match self {
+            Expression::Unary(token, operand) if !token.token_type.is_postfix() => {
+                operand.exposed_precedence()
+            }
+            _ => self.top_level_precedence(),
+        }
+    }
+
+    // Whether this expression needs parentheses to be the left operand of op.
+    pub fn needs_parens_on_left_of(&self, op: &TokenType) -> bool {
+        let precedence = self.top_level_precedence();
+        // An unparenthesized chain of 'implies' is ambiguous.
+        precedence < op.binary_precedence()
+            || (*op == TokenType::Implies && precedence == op.binary_precedence())
+    }
+
+    // Whether this expression needs parentheses to be the right operand of op.
+    pub fn needs_parens_on_right_of(&self, op: &TokenType) -> bool {
+        self.exposed_precedence() <= op.binary_precedence()
+    }
+
     // If this expression is of the form "premise -> conclusion", return the premise.
     pub fn premise(&self) -> Option<&Expression> {
         match self {
-- 
2.43.0


From bdd6f7f828e2804a9b627f8555664a97532a7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:04 +0000
Subject: [PATCH 28/36] fix: print match expressions with their own variable
 names and constructor patterns

---
 src/code_generator.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/code_generator.rs b/src/code_generator.rs
index b2eae4f..a133c22 100644
--- a/src/code_generator.rs
+++ b/src/code_generator.rs
@@ -1746,6 +1746,28 @@ impl CodeGenerator<'_> {
         ))
     }
 
+    /// Convert the pattern of a match case to an Expression.
+    /// A pattern applies the constructor itself, so this never uses receiver syntax.
+    fn pattern_to_expr(&mut self, pattern: &AcornValue) -> Result<Expression> {
+        if let AcornValue::Application(fa) = pattern {
+            if let AcornValue::Constant(c) = fa.function.as_ref() {
+                if c.value_param_types.is_empty() {
+                    let constructor = self.const_to_expr(c)?;
+                    let args = fa
+                        .args
+                        .iter()
+                        .map(|arg| self.value_to_expr(arg, false))
+                        .collect::<Result<Vec<_>>>()?;
+                    return Ok(Expression::Concatenation(
+                        Box::new(constructor),
+                        Box::new(Expression::generate_paren_grouping(args)),
+                    ));
+                }
+            }
+        }
+        self.value_to_expr(pattern, false)
+    }
+
     /// Convert an AcornValue to an Expression.
     /// var_names is the names we have assigned to indexed variables so far.
     /// We automatically generate variable names sometimes, using next_x and next_k.
@@ -2151,8 +2173,14 @@ impl CodeGenerator<'_> {
                 let scrutinee_expr = self.value_to_expr(scrutinee, false)?;
                 let mut case_pairs = Vec::new();
                 for case in cases {
-                    let pattern_expr = self.value_to_expr(&case.pattern, false)?;
+                    let initial_var_names_len = self.var_names.len();
+                    for _ in &case.new_vars {
+                        let var_name = self.bindings.next_indexed_var('x', &mut self.next_x);
+                        self.var_names.push(var_name);
+                    }
+                    let pattern_expr = self.pattern_to_expr(&case.pattern)?;
                     let result_expr = self.value_to_expr(&case.result, false)?;
+                    self.var_names.truncate(initial_var_names_len);
                     case_pairs.push((pattern_expr, result_expr));
                 }
                 Ok(Expression::Match(
-- 
2.43.0


From 00db94ea2907316a9528a3e49ff159c95d34de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:39 +0000
Subject: [PATCH 29/36] fix: a package's private modules are private to lib()
 as well

---
 src/elaborator/evaluator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elaborator/evaluator.rs b/src/elaborator/evaluator.rs
index 314384e..2aa1879 100644
--- a/src/elaborator/evaluator.rs
+++ b/src/elaborator/evaluator.rs
@@ -2039,6 +2039,12 @@ impl<'a> Evaluator<'a> {
                                         module_name
                                     )));
                                 }
+                                self.project
+                                    .validate_import_visibility(
+                                        self.bindings.module_id(),
+                                        module_id,
+                                    )
+                                    .map_err(|e| module_expr.error(&e))?;
                                 return Ok(NamedEntity::Module(module_id));
                             }
                             None => {
-- 
2.43.0


From ee31c12bfdc8896a22861cbafa7dba819ef83efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 30/36] fix: reject a package whose implementation depends on
 its own interface

---
 src/project.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 17e1983..bbb0287 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -3534,16 +3534,58 @@ impl Project {
         Ok(())
     }
 
+    // Finds a module that a package's implementation depends on, and that depends on the package's
+    // interface. The interface's theorems are taken on trust, so proving them this way is circular.
+    // Another package's interface stands for the modules that implement it.
+    fn module_relying_on_own_interface(
+        &self,
+        interface_descriptor: &ModuleDescriptor,
+        implementation_descriptors: &[ModuleDescriptor],
+    ) -> Option<ModuleDescriptor> {
+        let mut pending = implementation_descriptors.to_vec();
+        let mut visited: HashSet<_> = pending.iter().cloned().collect();
+        while let Some(descriptor) = pending.pop() {
+            let loaded_env = self
+                .module_map
+                .get(&descriptor)
+                .and_then(|module_id| self.get_env_by_id(*module_id));
+            let mut dependencies = match loaded_env {
+                Some(env) => env
+                    .bindings
+                    .direct_dependencies()
+                    .into_iter()
+                    .filter_map(|module_id| self.get_module_descriptor(module_id).cloned())
+                    .collect(),
+                None => self.dependency_descriptors_for_target(&descriptor),
+            };
+            if dependencies.contains(interface_descriptor) {
+                return Some(descriptor);
+            }
+            if self.package_role_for_descriptor(&descriptor) == PackageRole::Interface {
+                dependencies.extend(
+                    self.package_implementation_descriptors(&descriptor)
+                        .unwrap_or_default(),
+                );
+            }
+            for dependency in dependencies {
+                if visited.insert(dependency.clone()) {
+                    pending.push(dependency);
+                }
+            }
+        }
+        None
+    }
+
     fn load_and_validate_package(
         &mut self,
         interface_descriptor: &ModuleDescriptor,
     ) -> error::Result<()> {
-        for descriptor in self
+        let implementation_descriptors = self
             .package_implementation_descriptors(interface_descriptor)
-            .map_err(|e| Token::empty().error(&e.to_string()))?
-        {
+            .map_err(|e| Token::empty().error(&e.to_string()))?;
+        for descriptor in &implementation_descriptors {
             let module_id = self
-                .load_module(&descriptor, false)
+                .load_module(descriptor, false)
                 .map_err(|e| Token::empty().error(&e.to_string()))?;
             if let LoadState::Error(error) = self.get_module_by_id(module_id) {
                 return Err(Error::indirect(
@@ -3556,6 +3598,14 @@ impl Project {
                 ));
             }
         }
+        if let Some(descriptor) =
+            self.module_relying_on_own_interface(interface_descriptor, &implementation_descriptors)
+        {
+            return Err(Token::empty().error(&format!(
+                "the implementation of package '{}' depends on the package's own interface, through module '{}'",
+                interface_descriptor, descriptor
+            )));
+        }
         self.validate_package_implementations(interface_descriptor)
     }
 
-- 
2.43.0


From 7664d04a459ce1d88c85c4e11cff7406da50649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:12 +0000
Subject: [PATCH 31/36] fix: axiom inside an expression is an error instead of
 a panic

---
 src/elaborator/evaluator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elaborator/evaluator.rs b/src/elaborator/evaluator.rs
index 2aa1879..fa663e0 100644
--- a/src/elaborator/evaluator.rs
+++ b/src/elaborator/evaluator.rs
@@ -3304,7 +3304,9 @@ impl<'a> Evaluator<'a> {
     ) -> error::Result<PotentialValue> {
         let value = match expression {
             Expression::Singleton(token) => match token.token_type {
-                TokenType::Axiom => panic!("axiomatic values should be handled elsewhere"),
+                TokenType::Axiom => {
+                    return Err(token.error("axiom cannot be used inside an expression"));
+                }
                 TokenType::ForAll | TokenType::Exists | TokenType::Function | TokenType::Choose => {
                     return Err(token.error("binder keywords cannot be used as values"));
                 }
-- 
2.43.0


From 594a64f0c03de58a89a6874eb10bb15ebfa5588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:27 +0000
Subject: [PATCH 32/36] fix: reject a theorem argument named like its theorem
 instead of panicking

---
 .../environment/add_statement/definitions.rs          | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/elaborator/environment/add_statement/definitions.rs b/src/elaborator/environment/add_statement/definitions.rs
index 5a9b072..8089dfc 100644
--- a/src/elaborator/environment/add_statement/definitions.rs
+++ b/src/elaborator/environment/add_statement/definitions.rs
@@ -1120,6 +1120,17 @@ impl Environment {
             self.evaluate_local_family_params(project, &theorem_statement.type_params)?;
         let mut args = local_family_params.value_declarations;
         args.extend(theorem_statement.args.clone());
+        if let Some(name_token) = &theorem_statement.name_token {
+            // Both are bound inside the theorem's block.
+            if let Some(arg) = args
+                .iter()
+                .find(|arg| arg.token().text() == name_token.text())
+            {
+                return Err(arg
+                    .token()
+                    .error("an argument cannot have the same name as its theorem"));
+            }
+        }
         let (mut type_params, mut arg_names, mut arg_types, value, _, mut local_obligations) =
             self.bindings.evaluate_scoped_value(
                 &local_family_params.type_param_exprs,
-- 
2.43.0


From 7acc976898a9ec484c6937813c901dd7c019eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:41 +0000
Subject: [PATCH 33/36] fix: reject type parameters and instance names that
 clash with a type instead of panicking

---
 src/elaborator/environment/add_statement/attributes.rs | 2 ++
 src/elaborator/environment/add_statement/datatypes.rs  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/elaborator/environment/add_statement/attributes.rs b/src/elaborator/environment/add_statement/attributes.rs
index 60af32b..351b88a 100644
--- a/src/elaborator/environment/add_statement/attributes.rs
+++ b/src/elaborator/environment/add_statement/attributes.rs
@@ -392,6 +392,8 @@ impl Environment {
         })?;
 
         let instance_name = instance_name_token.text();
+        self.bindings
+            .check_typename_available(instance_name, instance_name_token)?;
         let type_param = crate::elaborator::acorn_type::TypeParam {
             name: instance_name.to_string(),
             typeclass: Some(typeclass.clone()),
diff --git a/src/elaborator/environment/add_statement/datatypes.rs b/src/elaborator/environment/add_statement/datatypes.rs
index 342fe2f..62428aa 100644
--- a/src/elaborator/environment/add_statement/datatypes.rs
+++ b/src/elaborator/environment/add_statement/datatypes.rs
@@ -622,6 +622,13 @@ impl Environment {
         let type_params = self
             .evaluator(project)
             .evaluate_type_params(&inductive_statement.type_params)?;
+        for (expr, type_param) in inductive_statement.type_params.iter().zip(&type_params) {
+            if type_param.name == inductive_statement.name_token.text() {
+                return Err(expr
+                    .name
+                    .error("a type parameter cannot have the same name as its type"));
+            }
+        }
         for type_param in &type_params {
             arbitrary_params.push(self.bindings.add_arbitrary_type(type_param.clone()));
         }
-- 
2.43.0


From 36897ebbaa48b78892a06c1bb374dd8cff6fae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:55 +0000
Subject: [PATCH 34/36] fix: an alias of a value that already has a symbol no
 longer panics

---
 src/kernel/symbol_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/symbol_table.rs b/src/kernel/symbol_table.rs
index 3543ffb..059da59 100644
--- a/src/kernel/symbol_table.rs
+++ b/src/kernel/symbol_table.rs
@@ -1126,6 +1126,11 @@ impl SymbolTable {
         local: bool,
         type_store: &mut TypeStore,
     ) {
+        if let Some(&symbol) = self.name_to_symbol.get(name) {
+            self.instance_to_symbol.insert(c, symbol);
+            return;
+        }
+
         // Register the type first so we can get its type Term
         type_store.add_type(constant_type);
         let var_type = type_store
-- 
2.43.0


From 032a1d95dff1352f5ae344e2f617b90421199aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:58 +0000
Subject: [PATCH 35/36] fix: bind index values correctly in arguments of
 function type

---
 src/elaborator/acorn_type.rs | 49 ++++++++++++++++--------------------
 src/elaborator/evaluator.rs  |  2 +-
 2 files changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 3d3a3f1..5459936 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -1728,6 +1728,11 @@ impl AcornType {
         self.bind_value_params_with_stack(0, values)
     }
 
+    /// Binds values that earlier arguments of a telescope stand for.
+    ///
+    /// The arguments and the result of a function type are in the scope of that telescope, so
+    /// for these the binding range stays where it is. Types inside them are annotations, for
+    /// which it belongs to the surrounding stack.
     pub fn bind_values(
         &self,
         first_binding_index: AtomId,
@@ -1735,49 +1740,28 @@ impl AcornType {
         values: &[AcornValue],
     ) -> AcornType {
         match self {
-            AcornType::Family(datatype, args) => AcornType::new_datatype_application(
-                datatype.clone(),
-                args.iter()
-                    .map(|arg| match arg {
-                        DependentTypeArg::Type(acorn_type) => DependentTypeArg::Type(
-                            acorn_type.bind_values(first_binding_index, stack_size, values),
-                        ),
-                        DependentTypeArg::Value(value) => DependentTypeArg::Value(
-                            value
-                                .clone()
-                                .bind_values(first_binding_index, stack_size, values),
-                        ),
-                    })
-                    .collect(),
-            ),
             AcornType::Function(function_type) => {
                 let mut current_stack_size = stack_size;
                 let arg_types = function_type
                     .arg_types
                     .iter()
                     .map(|t| {
-                        let bound = t.bind_values(first_binding_index, current_stack_size, values);
+                        let bound =
+                            t.bind_ambient_values(first_binding_index, current_stack_size, values);
                         current_stack_size += 1;
                         bound
                     })
                     .collect();
                 AcornType::functional(
                     arg_types,
-                    function_type.return_type.bind_values(
+                    function_type.return_type.bind_ambient_values(
                         first_binding_index,
                         current_stack_size,
                         values,
                     ),
                 )
             }
-            AcornType::Data(datatype, types) => AcornType::Data(
-                datatype.clone(),
-                types
-                    .iter()
-                    .map(|t| t.bind_values(first_binding_index, stack_size, values))
-                    .collect(),
-            ),
-            _ => self.clone(),
+            _ => self.bind_ambient_values(first_binding_index, stack_size, values),
         }
     }
 
@@ -1810,6 +1794,7 @@ impl AcornType {
             ),
             AcornType::Function(function_type) => {
                 let mut current_stack_size = stack_size;
+                let visible_count = function_type.arg_types.len() as AtomId;
                 let arg_types = function_type
                     .arg_types
                     .iter()
@@ -1819,7 +1804,7 @@ impl AcornType {
                         let bound = t.bind_ambient_values(
                             first_binding_index + visible_args,
                             current_stack_size,
-                            values,
+                            &Self::shift_values(values, visible_args),
                         );
                         current_stack_size += 1;
                         bound
@@ -1828,9 +1813,9 @@ impl AcornType {
                 AcornType::functional(
                     arg_types,
                     function_type.return_type.bind_ambient_values(
-                        first_binding_index + function_type.arg_types.len() as AtomId,
+                        first_binding_index + visible_count,
                         current_stack_size,
-                        values,
+                        &Self::shift_values(values, visible_count),
                     ),
                 )
             }
@@ -1845,6 +1830,14 @@ impl AcornType {
         }
     }
 
+    /// Moves values under visible function arguments, which come before the ambient stack.
+    fn shift_values(values: &[AcornValue], visible_args: AtomId) -> Vec<AcornValue> {
+        values
+            .iter()
+            .map(|value| value.clone().insert_stack(0, visible_args))
+            .collect()
+    }
+
     pub fn insert_stack(&self, index: AtomId, increment: AtomId) -> AcornType {
         match self {
             AcornType::Family(datatype, args) => AcornType::new_datatype_application(
diff --git a/src/elaborator/evaluator.rs b/src/elaborator/evaluator.rs
index fa663e0..3f6d786 100644
--- a/src/elaborator/evaluator.rs
+++ b/src/elaborator/evaluator.rs
@@ -112,7 +112,7 @@ impl SyntheticCaptureContext {
     }
 
     fn remap_type(&self, acorn_type: &AcornType) -> AcornType {
-        acorn_type.bind_values(0, self.original_stack_len, &self.replacement_values)
+        acorn_type.bind_ambient_values(0, self.original_stack_len, &self.replacement_values)
     }
 }
 
-- 
2.43.0


From aa8d13e070d7b5af1957e620841b3ea585718519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:59 +0000
Subject: [PATCH 36/36] fix: map the types of new variables when writing
 certificates

---
 src/kernel/proof_step.rs   | 34 ++++++++++++++++++++++++++--------
 src/kernel/variable_map.rs | 15 +++++++++------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/kernel/proof_step.rs b/src/kernel/proof_step.rs
index c0dab3d..1e1b2ec 100644
--- a/src/kernel/proof_step.rs
+++ b/src/kernel/proof_step.rs
@@ -503,6 +503,8 @@ impl PremiseMap {
     ) -> (VariableMap, LocalContext) {
         let mut map = VariableMap::new();
         let mut context = conclusion_context.clone();
+        // New variables, with the inner variables whose types they get.
+        let mut typed: Vec<(usize, usize)> = vec![];
 
         // Map surviving pre-norm vars through conclusion_map
         for (new_id, &old_id) in self.var_ids.iter().enumerate() {
@@ -512,9 +514,7 @@ impl PremiseMap {
                 // Variable not in conclusion_map: keep as identity.
                 // Ensure the output context has the type for this variable.
                 map.set(old_id, Term::atom(Atom::FreeVariable(new_id as AtomId)));
-                if let Some(var_type) = inner_step_context.get_var_type(old_id as usize) {
-                    context.set_type(new_id, var_type.clone());
-                }
+                typed.push((new_id, old_id as usize));
             }
         }
 
@@ -531,15 +531,22 @@ impl PremiseMap {
         let mut next_fresh = self.var_ids.len().max(conclusion_context.len());
         for var_id in 0..inner_step_context.len() {
             if !map.has_mapping(var_id as AtomId) {
-                if let Some(var_type) = inner_step_context.get_var_type(var_id) {
+                if inner_step_context.get_var_type(var_id).is_some() {
                     let fresh_id = next_fresh as AtomId;
                     map.set(var_id as AtomId, Term::atom(Atom::FreeVariable(fresh_id)));
-                    context.set_type(next_fresh, var_type.clone());
+                    typed.push((next_fresh, var_id));
                     next_fresh += 1;
                 }
             }
         }
 
+        // A type may mention any inner variable, so this waits for the whole map.
+        for (new_id, old_id) in typed {
+            if let Some(var_type) = inner_step_context.get_var_type(old_id) {
+                context.set_type(new_id, variable_map::apply_to_term(var_type.as_ref(), &map));
+            }
+        }
+
         (map, context)
     }
 
@@ -654,11 +661,22 @@ impl PremiseMap {
                 if !pre_norm_concrete.has_mapping(*var_id) {
                     let fresh_id = *next_fresh as AtomId;
                     pre_norm_concrete.set(*var_id, Term::atom(Atom::FreeVariable(fresh_id)));
-                    // Get type from the pre-normalization context
+                    let fresh_index = *next_fresh;
+                    *next_fresh += 1;
+                    // Get type from the pre-normalization context. It may mention other
+                    // pre-norm variables, so it has to be made concrete as well.
                     if let Some(ty) = self.pre_norm_context.get_var_type(*var_id as usize) {
-                        concrete_context.set_type(*next_fresh, ty.clone());
+                        self.assign_fresh_for_eliminated(
+                            ty.as_ref(),
+                            pre_norm_concrete,
+                            concrete_context,
+                            next_fresh,
+                        );
+                        concrete_context.set_type(
+                            fresh_index,
+                            variable_map::apply_to_term(ty.as_ref(), pre_norm_concrete),
+                        );
                     }
-                    *next_fresh += 1;
                 }
             }
             Decomposition::Atom(_) => {}
diff --git a/src/kernel/variable_map.rs b/src/kernel/variable_map.rs
index 417f12c..f5eab0e 100644
--- a/src/kernel/variable_map.rs
+++ b/src/kernel/variable_map.rs
@@ -128,10 +128,13 @@ impl VariableMap {
         replacement_context: &LocalContext,
     ) -> LocalContext {
         let mut output = LocalContext::empty();
-        for opt_term in &self.map {
-            if let Some(term) = opt_term {
-                for (var_id, var_type) in term.collect_vars(replacement_context) {
-                    output.set_type(var_id as usize, var_type.to_owned());
+        let mut pending: Vec<Term> = self.map.iter().flatten().cloned().collect();
+        while let Some(term) = pending.pop() {
+            for (var_id, var_type) in term.collect_vars(replacement_context) {
+                if output.get_var_type(var_id as usize).is_none() {
+                    // The type may mention variables that occur in no replacement term.
+                    pending.push(var_type.clone());
+                    output.set_type(var_id as usize, var_type);
                 }
             }
         }
@@ -604,7 +607,7 @@ impl VariableMap {
         for i in 0..input_context.len() {
             if self.get_mapping(i as AtomId).is_none() {
                 if let Some(var_type) = input_context.get_var_type(i) {
-                    output_context.set_type(i, var_type.clone());
+                    output_context.set_type(i, apply_to_term(var_type.as_ref(), self));
                 }
             }
         }
@@ -649,7 +652,7 @@ impl VariableMap {
             if self.get_mapping(i as AtomId).is_none() {
                 // This variable is unmapped, so it will remain in the output
                 if let Some(var_type) = input_context.get_var_type(i) {
-                    output_context.set_type(i, var_type.clone());
+                    output_context.set_type(i, apply_to_term(var_type.as_ref(), self));
                 }
             }
         }
-- 
2.43.0

