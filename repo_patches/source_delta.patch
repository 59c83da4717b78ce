From 64732067f1c39283f2d28eaa5ee69c694a56cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:08 +0000
Subject: [PATCH 01/38] fix: recompute what is extracted from a while condition
 after each iteration

---
 compiler/src/hir/sugar_cleaner.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..44aa203 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -102,14 +102,23 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
 }
 
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
-    use Statement::While;
-    if let While { cond, stmt, .. } = stmt {
-        let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
+    use Statement::{Block, While};
+    if let While { meta, cond, stmt } = stmt {
+        let mut expands = extend_expression(cond, state, context).initializations;
         let mut expr = vec![cond.clone()];
         sugar_filter(&mut expr, state, &mut expands);
         *cond = expr.pop().unwrap();
+        // What was extracted from the condition is computed before the loop
+        // and again at the end of each iteration
+        let mut updates = expands.clone();
+        updates.retain(|s| !s.is_declaration());
+        if !updates.is_empty() || !stmt.is_block() {
+            let mut stmts = vec![*stmt.clone()];
+            stmts.append(&mut updates);
+            *stmt = Box::new(Block { meta: meta.clone(), stmts });
+        }
+        let trash = extend_statement(stmt, state, context);
+        assert!(trash.is_empty());
         expands
     } else {
         unreachable!()
-- 
2.43.0


From afe9396206f91e49559005fda39b586d0c824839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 02/38] fix: compile ternary conditions and compute only the
 chosen case

Calls and arrays in the condition of a ternary, and ternaries that are the
whole operand of log, assert or ===, made the compiler panic; what the two
cases need was computed eagerly, so a recursive function written with a
ternary never ended and asserts of the case not chosen were checked.
---
 compiler/src/hir/merger.rs        |  6 ++--
 compiler/src/hir/sugar_cleaner.rs | 53 +++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 44aa203..08f0834 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -183,6 +183,8 @@ fn extend_constraint_equality(
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
+        switch_filter(lhe, state, &mut expands);
+        switch_filter(rhe, state, &mut expands);
         expands
     } else {
         unreachable!()
@@ -206,6 +208,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
             if let LogArgument::LogExp(arg) = arglog {
                 let mut exp = extend_expression(arg, state, context);
                 initializations.append(&mut exp.initializations);
+                switch_filter(arg, state, &mut initializations);
             }
         }
         initializations
@@ -217,7 +220,9 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        let mut expands = extend_expression(arg, state, context).initializations;
+        switch_filter(arg, state, &mut expands);
+        expands
     } else {
         unreachable!()
     }
@@ -377,15 +382,36 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
-        let mut true_expand = extend_expression(if_true, state, context);
-        let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
-        let mut expr = vec![*if_true.clone(), *if_false.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
-        *if_false = Box::new(expr.pop().unwrap());
-        *if_true = Box::new(expr.pop().unwrap());
+    use Statement::{Block, IfThenElse};
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        let mut extended = extend_expression(cond, state, context);
+        let mut cases = vec![*cond.clone()];
+        sugar_filter(&mut cases, state, &mut extended.initializations);
+        *cond = Box::new(cases.pop().unwrap());
+        let mut case_inits = vec![];
+        for case in [if_true, if_false] {
+            let mut inits = extend_expression(case, state, context).initializations;
+            cases.push(*case.clone());
+            sugar_filter(&mut cases, state, &mut inits);
+            *case = Box::new(cases.pop().unwrap());
+            map_substitutions(&mut inits);
+            case_inits.push(inits);
+        }
+        if case_inits.iter().any(|inits| !inits.is_empty()) {
+            // what a case needs is only computed if that case is chosen
+            let id = state.produce_id();
+            let mut buffer = vec![];
+            *expr = rmv_sugar(&id, expr.clone(), &mut buffer);
+            map_substitutions(&mut buffer);
+            if let Some(IfThenElse { if_case, else_case: Some(else_case), .. }) = buffer.last_mut() {
+                for (case, inits) in vec![if_case, else_case].into_iter().zip(case_inits) {
+                    if let Block { stmts, .. } = case.as_mut() {
+                        stmts.splice(0..0, inits);
+                    }
+                }
+            }
+            extended.initializations.append(&mut buffer);
+        }
         extended
     } else {
         unreachable!()
@@ -484,6 +510,13 @@ fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut V
     }
 }
 
+fn switch_filter(elem: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
+    if elem.is_switch() {
+        let id = state.produce_id();
+        *elem = rmv_sugar(&id, elem.clone(), inits);
+    }
+}
+
 fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>) -> Expression {
     use Expression::Variable;
     use Statement::{Declaration, Substitution};
-- 
2.43.0


From b0f106050a8f314273f07aee0b79ada3e9ac8952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 03/38] fix: a while loop is not a condition of its own

It pushed an entry on the stack of unknown conditions and popped one per
iteration, so after a loop with no iteration valid programs were rejected for
assigning a signal twice.
---
 constraint_generation/src/execute.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..432e80e 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -684,9 +684,6 @@ fn execute_statement(
             possible_return
         }
         While { cond, stmt, .. } => {
-            // We update the conditions state of the execution
-            runtime.conditions_state.push((runtime.unknown_counter, true));
-            runtime.unknown_counter+=1;
             loop {
 
                 let (returned, can_simplify, condition_result) = execute_conditional_statement(
@@ -715,8 +712,6 @@ fn execute_statement(
                 } else if !condition_result.unwrap() {
                     break returned;
                 }
-                // We remove the last conditions_state added
-                runtime.conditions_state.pop();
             }
         },
         Block { stmts, .. } => {
-- 
2.43.0


From f0d8b751ef83f84783b862284a2bdd1021d32f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 04/38] fix: constant remainder by zero is an error and
 oversized constant shifts are zero

% by a constant zero panicked; shifts by a large constant built 2**k or were
reported as divisions by zero.
---
 circom_algebra/src/modular_arithmetic.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..c4546c2 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
@@ -112,9 +116,10 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
+        let usize_repr = match right.to_usize() {
+            Some(value) if value < field.bits() => value,
+            _ => return Result::Ok(BigInt::from(0)), // every bit is shifted out
+        };
         let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
         Result::Ok(value)
     } else {
@@ -125,9 +130,10 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
+        let usize_repr = match right.to_usize() {
+            Some(value) if value < field.bits() => value,
+            _ => return Result::Ok(BigInt::from(0)), // every bit is shifted out
+        };
         let value = left / &num_traits::pow(two, usize_repr);
         Result::Ok(value)
     } else {
-- 
2.43.0


From 57bc0cf1005cc5a9000e52b582e36117170fa1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 05/38] fix: execute the body of a loop of unknown length until
 nothing more becomes unknown

Expressions folded in the first two executions of the body were kept although
later iterations change the variables they read.
---
 constraint_generation/src/execute.rs       | 39 ++++++++++++++++------
 program_structure/src/utils/environment.rs |  3 ++
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 432e80e..0a4db50 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -699,16 +699,25 @@ fn execute_statement(
                 if returned.is_some() {
                     break returned;
                 } else if condition_result.is_none() {
-                    let (returned, _, _) = execute_conditional_statement(
-                        cond,
-                        stmt,
-                        None,
-                        program_archive,
-                        runtime,
-                        actual_node,
-                        flags
-                    )?;
-                    break returned;
+                    // The number of iterations is unknown: the body is executed until
+                    // no more variables become unknown
+                    let mut known = known_cells(&runtime.environment);
+                    break loop {
+                        let (returned, _, _) = execute_conditional_statement(
+                            cond,
+                            stmt,
+                            None,
+                            program_archive,
+                            runtime,
+                            actual_node,
+                            flags
+                        )?;
+                        let still_known = known_cells(&runtime.environment);
+                        if returned.is_some() || still_known == known {
+                            break returned;
+                        }
+                        known = still_known;
+                    };
                 } else if !condition_result.unwrap() {
                     break returned;
                 }
@@ -2697,6 +2706,16 @@ fn execute_conditional_statement(
     }
 }
 
+// number of known cells of the variables in the environment
+fn known_cells(environment: &ExecutionEnvironment) -> usize {
+    environment.variables().map(|(_, slice)| {
+        let cells = 0..AExpressionSlice::get_number_of_cells(slice);
+        cells.filter(|i| {
+            AExpressionSlice::access_value_by_index(slice, *i).map_or(false, |v| !v.is_nonquadratic())
+        }).count()
+    }).sum()
+}
+
 fn execute_sequence_of_statements(
     stmts: &[Statement],
     program_archive: &ProgramArchive,
diff --git a/program_structure/src/utils/environment.rs b/program_structure/src/utils/environment.rs
index cd181ed..2276b91 100644
--- a/program_structure/src/utils/environment.rs
+++ b/program_structure/src/utils/environment.rs
@@ -119,6 +119,9 @@ impl<T, CC, SC, VC, BC> RawEnvironment<T, CC, SC, VC, BC>
 where
     T: VarInfo,
 {
+    pub fn variables(&self) -> impl Iterator<Item = &VC> {
+        self.variables.iter().flat_map(|block| block.variables.values())
+    }
     fn block_with_variable_symbol(&self, symbol: &str) -> Option<&VariableBlock<VC>> {
         let variables = &self.variables;
         let mut act = variables.len();
-- 
2.43.0


From af7fc3cac5e65dc16c718a9dcd187a33dcd9be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:38 +0000
Subject: [PATCH 06/38] fix: forget the values computed for the cases of a
 ternary chosen at run time

---
 constraint_generation/src/execute.rs | 38 ++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0a4db50..c47b38a 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -954,6 +954,42 @@ fn execute_bus_statement(
     Result::Ok(())
 }
 
+// The values computed so far for an expression that is chosen at run time are no longer valid
+fn forget_computed(expr: &Expression, runtime: &mut RuntimeInformation) {
+    use Expression::*;
+    Analysis::computed(&mut runtime.analysis, expr.get_meta().elem_id, AExpr::NonQuadratic);
+    match expr {
+        InfixOp { lhe, rhe, .. } => {
+            forget_computed(lhe, runtime);
+            forget_computed(rhe, runtime);
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => forget_computed(rhe, runtime),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            forget_computed(cond, runtime);
+            forget_computed(if_true, runtime);
+            forget_computed(if_false, runtime);
+        }
+        Call { args, .. } | BusCall { args, .. } => {
+            args.iter().for_each(|arg| forget_computed(arg, runtime))
+        }
+        ArrayInLine { values, .. } => {
+            values.iter().for_each(|value| forget_computed(value, runtime))
+        }
+        UniformArray { value, dimension, .. } => {
+            forget_computed(value, runtime);
+            forget_computed(dimension, runtime);
+        }
+        Variable { access, .. } => {
+            for acc in access {
+                if let Access::ArrayAccess(index) = acc {
+                    forget_computed(index, runtime);
+                }
+            }
+        }
+        Number(..) | AnonymousComp { .. } | Tuple { .. } => {}
+    }
+}
+
 fn execute_expression(
     expr: &Expression,
     program_archive: &ProgramArchive,
@@ -1240,6 +1276,8 @@ fn execute_expression(
                     execute_expression(if_false, program_archive, runtime, flags)?
                 }
             } else {
+                forget_computed(if_true, runtime);
+                forget_computed(if_false, runtime);
                 let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
                 FoldedValue { arithmetic_slice, ..FoldedValue::default() }
             }
-- 
2.43.0


From 839be65f85c064ae0e93e8763e91e78c48b582bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:32 +0000
Subject: [PATCH 07/38] fix: take the results of simplification in an order
 that does not depend on threads or hashing

---
 circom_algebra/src/simplification_utils.rs    | 27 +++++++++++--------
 .../src/constraint_simplification.rs          | 26 ++++++++++--------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/circom_algebra/src/simplification_utils.rs b/circom_algebra/src/simplification_utils.rs
index 6219843..f7537f9 100644
--- a/circom_algebra/src/simplification_utils.rs
+++ b/circom_algebra/src/simplification_utils.rs
@@ -39,7 +39,7 @@ impl<'a> SignalDefinition<'a> {
 }
 
 struct SignalDefinition4<'a> {
-    deleted_symbols: HashSet<usize>,
+    deleted_symbols: HashMap<usize, usize>, // each with its position in the order of elimination
     forbidden: &'a HashSet<usize>,
     order_signals: LinkedList<usize>, // the last eliminated is the first in the list
 }
@@ -49,11 +49,12 @@ impl<'a> SignalDefinition4<'a> {
         !self.forbidden.contains(&k)
     }
     pub fn delete(&mut self, k: usize) {
-        self.deleted_symbols.insert(k);
+        let position = self.deleted_symbols.len();
+        self.deleted_symbols.insert(k, position);
         self.order_signals.push_front(k);
     }
-    pub fn is_deleted(&self, k: usize) -> bool {
-        self.deleted_symbols.contains(&k)
+    pub fn position_if_deleted(&self, k: usize) -> Option<usize> {
+        self.deleted_symbols.get(&k).cloned()
     }
 }
 
@@ -378,12 +379,15 @@ fn take_signal_3(signals: &SignalDefinition, constraint: &C) -> Option<usize> {
 
 fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformation, constraint: &C) -> Option<usize> {
     let mut ret = Option::None;
+    let mut deleted: Option<(usize, usize)> = Option::None;
     let mut ocurrences_ret: Option<usize> = Option::None;
     for k in constraint.c().keys() {
         if signals.can_be_taken(*k) {
-            if signals.is_deleted(*k) {
-                ret = Some(*k);
-                break;
+            if let Some(position) = signals.position_if_deleted(*k) {
+                // the first that was eliminated, whatever the order of the keys
+                if deleted.map_or(true, |(prev, _)| position < prev) {
+                    deleted = Some((position, *k));
+                }
             }
             else {
                 let new_ocurrences = info_ocurrences.signal_to_ocurrences.get(k).unwrap();
@@ -407,7 +411,7 @@ fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformati
             }
         }
     }
-    ret
+    deleted.map(|(_, k)| k).or(ret)
 }
 
 
@@ -559,7 +563,7 @@ where
     let non_overlapping: HashMap<usize, S>;
 
     if apply_less_ocurrences{
-        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
         substitution_process_4(&mut signals, &mut constraints, &mut holder, config.num_signals, &field);
         normalized_holder = normalize_substitutions(holder, &field);
         non_overlapping = create_nonoverlapping_substitutions_4(normalized_holder, &signals, &field);
@@ -572,7 +576,8 @@ where
     }
     let mut substitutions = LinkedList::new();
     let mut removed = LinkedList::new();
-    for (s, v) in non_overlapping {
+    let ordered: BTreeMap<usize, S> = non_overlapping.into_iter().collect();
+    for (s, v) in ordered {
         LinkedList::push_back(&mut removed, s);
         LinkedList::push_back(&mut substitutions, v);
     }
@@ -586,7 +591,7 @@ where
 {
     let field = config.field.clone();
     // build the subs using always the complete new version
-    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
     let mut constraints_4 = config.constraints.clone();
     let mut holder_4 = SHNotNormalized::new();
     substitution_process_4(&mut signals_4, &mut constraints_4, &mut holder_4, config.num_signals, &field);
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..a9ce9aa 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -74,7 +74,7 @@ fn build_clusters(linear: LinkedList<C>, no_vars: usize) -> Vec<Cluster> {
     let mut signal_to_cluster = vec![no_linear; no_vars];
     for constraint in linear {
         if !constraint.is_empty(){
-            let signals = C::take_cloned_signals(&constraint);
+            let signals = C::take_cloned_signals_ordered(&constraint);
             let dest = ClusterArena::len(&arena);
             ClusterArena::push(&mut arena, Some(Cluster::new(constraint, signals.len())));
             Vec::push(&mut cluster_to_current, dest);
@@ -156,7 +156,7 @@ fn eq_cluster_simplification(
         let mut cons = LinkedList::new();
         let mut subs = LinkedList::new();
         let (mut remains, mut min_remains) = (BTreeSet::new(), None);
-        let (mut remove, mut min_remove) = (HashSet::new(), None);
+        let (mut remove, mut min_remove) = (BTreeSet::new(), None);
         for c in cluster.constraints {
             for signal in C::take_cloned_signals_ordered(&c) {
                 if HashSet::contains(&forbidden, &signal) {
@@ -164,7 +164,7 @@ fn eq_cluster_simplification(
                     min_remains = Some(min_remains.map_or(signal, |s| std::cmp::min(s, signal)));
                 } else {
                     min_remove = Some(min_remove.map_or(signal, |s| std::cmp::min(s, signal)));
-                    HashSet::insert(&mut remove, signal);
+                    BTreeSet::insert(&mut remove, signal);
                 }
             }
         }
@@ -174,7 +174,7 @@ fn eq_cluster_simplification(
             signal
         } else {
             let signal = min_remove.unwrap();
-            HashSet::remove(&mut remove, &signal);
+            BTreeSet::remove(&mut remove, &signal);
             signal
         };
 
@@ -215,11 +215,12 @@ fn eq_simplification(
     let mut single_clusters = 0;
     let mut id = 0;
     let mut aux_constraints = vec![LinkedList::new(); clusters.len()];
+    let mut aux_substitutions = vec![LinkedList::new(); clusters.len()];
     for cluster in clusters {
         if Cluster::size(&cluster) == 1 {
-            let (mut subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
+            let (subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
             aux_constraints[id] = cons;
-            LinkedList::append(&mut substitutions, &mut subs);
+            aux_substitutions[id] = subs;
             single_clusters += 1;
         } else {
             let cluster_tx = cluster_tx.clone();
@@ -239,11 +240,12 @@ fn eq_simplification(
     // println!("{} clusters were of size 1", single_clusters);
     ThreadPool::join(&pool);
     for _ in 0..(no_clusters - single_clusters) {
-        let (id, (mut subs, cons)) = simplified_rx.recv().unwrap();
+        let (id, (subs, cons)) = simplified_rx.recv().unwrap();
         aux_constraints[id] = cons;
-        LinkedList::append(&mut substitutions, &mut subs);
+        aux_substitutions[id] = subs;
     }
     for id in 0..no_clusters {
+        LinkedList::append(&mut substitutions, &mut aux_substitutions[id]);
         LinkedList::append(&mut constraints, &mut aux_constraints[id]);
     }
     log_substitutions(&substitutions, substitution_log);
@@ -307,7 +309,7 @@ fn linear_simplification(
             // println!("cluster: {}", id);
             let result = full_simplification(config);
             // println!("End of cluster: {}", id);
-            cluster_tx.send(result).unwrap();
+            cluster_tx.send((id, result)).unwrap();
         };
         ThreadPool::execute(&pool, job);
         let _ = id;
@@ -315,8 +317,10 @@ fn linear_simplification(
     }
     ThreadPool::join(&pool);
 
-    for _ in 0..no_clusters {
-        let mut result = simplified_rx.recv().unwrap();
+    // the clusters finish in any order: their results are taken in the order of the clusters
+    let mut results: Vec<_> = (0..no_clusters).map(|_| simplified_rx.recv().unwrap()).collect();
+    results.sort_by_key(|(id, _)| *id);
+    for (_, mut result) in results {
         log_substitutions(&result.substitutions, log);
         LinkedList::append(&mut cons, &mut result.constraints);
         LinkedList::append(&mut substitutions, &mut result.substitutions);
-- 
2.43.0


From a46ebb614fe03f852bd10a454464522feadbce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 08/38] fix: the instances of a template may declare different
 inputs and outputs

---
 compiler/src/circuit_design/build.rs          | 13 ++++++++++++-
 .../intermediate_representation/translate.rs  | 19 ++++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..5470b38 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -519,7 +519,18 @@ fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -
     #[cfg(debug_assertions)]
     matching_lengths_and_offsets(&io_list);
 
-    io_list
+    // the definitions are accessed by their code: the codes of signals
+    // that this instance does not have are left empty
+    io_list.sort_by_key(|def| def.code);
+    let mut by_code = InputOutputList::new();
+    for def in io_list {
+        while by_code.len() < def.code {
+            let code = by_code.len();
+            by_code.push(IODef { code, offset: 0, lengths: vec![], size: 0, bus_id: None });
+        }
+        by_code.push(def);
+    }
+    by_code
 }
 
 fn write_main_inputs_log_new(vcp: &VCP) {
diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 04e13d4..d9ab346 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -78,11 +78,16 @@ impl TemplateDB {
         if !db.indexes.contains_key(&instance.template_name) {
             let index = db.signals_id.len();
             db.indexes.insert(instance.template_name.clone(), index);
-            let mut correspondence = HashMap::new();
-            for (id, signal) in instance.wires.iter().enumerate() {
-                correspondence.insert(signal.name().clone(), id);
+            db.signals_id.push(HashMap::new());
+        }
+        // the instances of a template may declare different signals or in a different order:
+        // the code of an input or output is the same in all of them
+        let correspondence = &mut db.signals_id[db.indexes[&instance.template_name]];
+        for signal in &instance.wires {
+            if signal.xtype() != SignalType::Intermediate {
+                let id = correspondence.len();
+                correspondence.entry(signal.name().clone()).or_insert(id);
             }
-            db.signals_id.push(correspondence);
         }
         let mut state = State::new(
             instance.template_id,
@@ -1168,7 +1173,11 @@ impl ProcessedSymbol {
 
                         for cmp_id in possible_cmp_id{
                             // aux contains the info about the accessed wire
-                            let aux = context.tmp_database.wire_info[cmp_id].get(&name).unwrap();  
+                            // (an instance that does not declare it is never accessed here)
+                            let aux = match context.tmp_database.wire_info[cmp_id].get(&name) {
+                                Some(info) => info,
+                                None => continue,
+                            };
                             signal_type = Some(aux.signal_type);
                             // update the possible status
                             let mut new_length = aux.lengths.clone();
-- 
2.43.0


From 44e3634dfa6bfae129dfc213109127b27f1ba511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:34 +0000
Subject: [PATCH 09/38] fix: take the instances of a mixed component array in a
 fixed order

---
 compiler/src/intermediate_representation/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index d9ab346..8f3300c 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -7,7 +7,7 @@ use num_bigint_dig::BigInt;
 use program_structure::ast::*;
 use program_structure::file_definition::FileLibrary;
 use program_structure::utils::environment::VarEnvironment;
-use std::collections::{HashMap, BTreeMap, HashSet};
+use std::collections::{HashMap, BTreeMap, BTreeSet, HashSet};
 use std::mem;
 
 type Length = usize;
@@ -136,7 +136,7 @@ struct State {
     field_tracker: FieldTracker,
     environment: E,
     component_to_parallel:  HashMap<String, ParallelClusters>,
-    component_to_instance: HashMap<String, HashSet<usize>>,
+    component_to_instance: HashMap<String, BTreeSet<usize>>,
     signal_to_type: HashMap<String, SignalType>,
     signal_to_tags: HashMap<Vec<String>, BigInt>,
     message_id: usize,
@@ -375,7 +375,7 @@ fn create_components(state: &mut State, triggers: &[Trigger], clusters: Vec<Trig
                 info.insert(trigger.template_id);
             }
             None =>{
-                let mut new_info = HashSet::new();
+                let mut new_info = BTreeSet::new();
                 new_info.insert(trigger.template_id);
                 state.component_to_instance.insert(trigger.component_name.clone(), new_info);
             }
-- 
2.43.0


From 63376bbcd66115fa0b5891ffeca1e26866aae73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 10/38] fix: count an input or bus field assigned in both
 branches of a condition once

---
 constraint_generation/src/assignment_utils.rs | 20 +++++++++----
 .../environment_utils/bus_representation.rs   | 29 +++++--------------
 .../component_representation.rs               | 23 +++++++--------
 constraint_generation/src/execute.rs          |  4 +--
 4 files changed, 35 insertions(+), 41 deletions(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index b090e9b..f1659b0 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -129,7 +129,8 @@ pub fn perform_tag_propagation(tags_values: &mut TagInfo, tags_definitions: &mut
 
 pub fn perform_tag_propagation_bus(tag_data: &mut BusTagInfo, assigned_tags: &TagWire, n_inserts: usize){
     perform_tag_propagation(&mut tag_data.tags, &mut tag_data.definitions, &assigned_tags.tags, tag_data.is_init);
-    tag_data.remaining_inserts -= n_inserts; 
+    // a field can be assigned in both branches of a condition
+    tag_data.remaining_inserts = tag_data.remaining_inserts.saturating_sub(n_inserts);
     tag_data.is_init = true;
 
     for (field_name, field_data) in &mut tag_data.fields{
@@ -194,12 +195,14 @@ pub fn join_tags_propagation(tags: Option<TagWire>, new_tags: &TagWire)-> Option
 
 
 
+// returns the number of signals that had not been assigned before (not even in other branches)
 pub fn perform_signal_assignment(
     signal_slice: &mut SignalSlice, 
     array_access: &[SliceCapacity], 
     new_route: &[SliceCapacity],
     conditions_assignment: &AssignmentState
-)-> Result<(), MemoryError>{
+)-> Result<usize, MemoryError>{
+    let mut newly_assigned = 0;
     let memory_response_for_signal_previous_value = SignalSlice::access_values(
         signal_slice,
         array_access,
@@ -235,6 +238,7 @@ pub fn perform_signal_assignment(
         let signal_was_assigned = signal_previous_value.get_mut(i).unwrap();
         match signal_was_assigned{
             AssignmentState::NoAssigned =>{
+                newly_assigned += 1;
                 **signal_was_assigned = conditions_assignment.clone();
             }
             AssignmentState::Assigned(meta) =>{
@@ -309,17 +313,18 @@ pub fn perform_signal_assignment(
 
     }
 
-    Result::Ok(())
+    Result::Ok(newly_assigned)
 }
 
 
+// returns the number of buses that were not complete before
 pub fn perform_bus_assignment(
     bus_slice: &mut BusSlice, 
     array_access: &[SliceCapacity], 
     assigned_bus_slice: &BusSlice, 
     is_input: bool, 
     conditions_assignment: &AssignmentState
-)-> Result<(), MemoryError>{
+)-> Result<usize, MemoryError>{
 
     let correct_dims_result = BusSlice::check_correct_dims(
         &bus_slice, 
@@ -341,6 +346,7 @@ pub fn perform_bus_assignment(
 
 
     let mut index = 0;
+    let mut newly_assigned = 0;
     for accessed_bus in value_left{
         // We completely assign each one of them
         let memory_response_assign = BusSlice::get_reference_to_single_value_by_index(&assigned_bus_slice, index);
@@ -349,6 +355,10 @@ pub fn perform_bus_assignment(
             Err(err) => return Err(err)
         };
 
+        if accessed_bus.has_unassigned_fields(){
+            newly_assigned += 1;
+        }
+
         match accessed_bus.completely_assign_bus(&assigned_bus, is_input, conditions_assignment){
             Ok(_) =>{},
             Err(err) => return Err(err)
@@ -357,5 +367,5 @@ pub fn perform_bus_assignment(
 
     }
     
-    Ok(())
+    Ok(newly_assigned)
 }
diff --git a/constraint_generation/src/environment_utils/bus_representation.rs b/constraint_generation/src/environment_utils/bus_representation.rs
index 16e123e..4945e0b 100644
--- a/constraint_generation/src/environment_utils/bus_representation.rs
+++ b/constraint_generation/src/environment_utils/bus_representation.rs
@@ -85,7 +85,7 @@ impl BusRepresentation {
                 )?;
                 let bus_slice = BusSlice::new_with_route(&route, &bus_field);
                 let bus_slice_size = BusSlice::get_number_of_cells(&bus_slice);
-                if bus_slice_size > 0{
+                if bus_slice_size > 0 && bus_field.has_unassigned_fields(){
                     component.unassigned_fields
                         .insert(symbol.clone(), bus_slice_size);
                 }
@@ -229,6 +229,7 @@ impl BusRepresentation {
                             Result::Ok(mut bus_slice) =>{
                                 assert!(bus_slice.len() == 1);
                                 let resulting_bus = bus_slice.get_mut(0).unwrap();
+                                let was_unassigned = resulting_bus.has_unassigned_fields();
                                 resulting_bus.assign_value_to_field( 
                                     remaining_access.field_access.as_ref().unwrap(), 
                                     &remaining_access.remaining_access.as_ref().unwrap(),
@@ -238,7 +239,7 @@ impl BusRepresentation {
                                 )?;
 
                                 // Update from unassigned if it is completely assigned
-                                if !resulting_bus.has_unassigned_fields(){
+                                if was_unassigned && !resulting_bus.has_unassigned_fields(){
                                     match self.unassigned_fields.get_mut(field_name){
                                         Some(left) => {
                                             *left -= 1;
@@ -268,7 +269,7 @@ impl BusRepresentation {
 
             } else{
                 // assign the values to the signal or bus
-                match field{
+                let newly_assigned = match field{
                     FieldTypes::Signal(signal_slice) =>{
                         let route = match assigned_value{
                             FoldedArgument::Signal(signal_slice_route) =>{
@@ -276,7 +277,7 @@ impl BusRepresentation {
                             },
                             _ => unreachable!()
                         };
-                        perform_signal_assignment(signal_slice, &remaining_access.array_access, route, conditions_assignment)?;
+                        perform_signal_assignment(signal_slice, &remaining_access.array_access, route, conditions_assignment)?
                     },
                     FieldTypes::Bus(bus_slice) =>{
                         let assigned_bus_slice = match assigned_value{
@@ -285,29 +286,15 @@ impl BusRepresentation {
                             },
                             _ => unreachable!()
                         };
-                        perform_bus_assignment(bus_slice, &remaining_access.array_access, assigned_bus_slice, is_input, conditions_assignment)?;
+                        perform_bus_assignment(bus_slice, &remaining_access.array_access, assigned_bus_slice, is_input, conditions_assignment)?
 
                     }
-                }
-
-                // Update the value of unnasigned fields
-                let slice_route = match assigned_value{
-                    FoldedArgument::Signal(signal_slice_route) =>{
-                        signal_slice_route
-                    },
-                    FoldedArgument::Bus(bus_slice) =>{
-                        bus_slice.route()
-                    },
                 };
 
-                let mut dim_slice = 1;
-                for i in slice_route {
-                    dim_slice *= *i;
-                }
-                    
+                // Update the value of unnasigned fields (what was not assigned in another branch)
                 match self.unassigned_fields.get_mut(field_name){
                     Some(left) => {
-                        *left -= dim_slice;
+                        *left -= newly_assigned;
                         if *left == 0 {
                             self.unassigned_fields.remove(field_name);
                         }
diff --git a/constraint_generation/src/environment_utils/component_representation.rs b/constraint_generation/src/environment_utils/component_representation.rs
index 1b40bbb..57b0b21 100644
--- a/constraint_generation/src/environment_utils/component_representation.rs
+++ b/constraint_generation/src/environment_utils/component_representation.rs
@@ -184,7 +184,7 @@ impl ComponentRepresentation {
                 )?;
                 let bus_slice = BusSlice::new_with_route(route, &initial_value_bus);
                 let bus_slice_size = BusSlice::get_number_of_cells(&bus_slice);
-                if bus_slice_size > 0{
+                if bus_slice_size > 0 && initial_value_bus.has_unassigned_fields(){
                     component.unassigned_inputs
                         .insert(symbol.clone(), bus_slice_size);
                 }
@@ -480,10 +480,10 @@ impl ComponentRepresentation {
         
         // Perform the assignment
         let inputs_response = self.inputs.get_mut(signal_name).unwrap();
-        perform_signal_assignment(inputs_response, &access, slice_route, conditions_assignment)?;
+        let newly_assigned = perform_signal_assignment(inputs_response, &access, slice_route, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, signal_name, slice_route);
+        ComponentRepresentation::update_unassigned_inputs(self, signal_name, newly_assigned);
 
         Result::Ok(())
 
@@ -558,10 +558,10 @@ impl ComponentRepresentation {
         
         // Perform the assignment
         let inputs_response = self.input_buses.get_mut(bus_name).unwrap();
-        perform_bus_assignment(inputs_response, &access, bus_slice, true, conditions_assignment)?;
+        let newly_assigned = perform_bus_assignment(inputs_response, &access, bus_slice, true, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, bus_name, bus_slice.route());
+        ComponentRepresentation::update_unassigned_inputs(self, bus_name, newly_assigned);
 
         Result::Ok(())
 
@@ -692,6 +692,7 @@ impl ComponentRepresentation {
             },
         };
 
+        let was_unassigned = single_bus.has_unassigned_fields();
         single_bus.assign_value_to_field(
             access.field_access.as_ref().unwrap(),
             access.remaining_access.as_ref().unwrap(),
@@ -702,8 +703,8 @@ impl ComponentRepresentation {
         
         
         // In case it is completely assigned update unassigned
-        if !single_bus.has_unassigned_fields(){
-            ComponentRepresentation::update_unassigned_inputs(self, bus_name, &[1]);
+        if was_unassigned && !single_bus.has_unassigned_fields(){
+            ComponentRepresentation::update_unassigned_inputs(self, bus_name, 1);
         }
 
         Result::Ok(())
@@ -868,14 +869,10 @@ impl ComponentRepresentation {
 
     // Auxiliar function to update the unassigned inputs
 
-    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, slice_route: &[usize]){
-        let mut dim_slice = 1;
-        for i in slice_route {
-            dim_slice *= *i;
-        }
+    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, newly_assigned: usize){
         match component.unassigned_inputs.get_mut(signal_name){
             Some(left) => {
-                *left -= dim_slice;
+                *left -= newly_assigned;
                 if *left == 0 {
                     component.unassigned_inputs.remove(signal_name);
                 }
diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index c47b38a..97df3a8 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1783,7 +1783,7 @@ fn perform_assign(
         // Perform the signal assignment
         let signal_assignment_response = perform_signal_assignment(reference_to_signal_content, &accessing_information.before_signal, &r_slice.route(), &conditions_assignment);
         
-        treat_result_with_memory_error_void(
+        treat_result_with_memory_error(
             signal_assignment_response,
             meta,
             &mut runtime.runtime_errors,
@@ -2474,7 +2474,7 @@ fn perform_assign(
 
                 // We assign the original buses
                 let bus_assignment_response = perform_bus_assignment(bus_slice, &accessing_information.array_access, assigned_bus_slice, false, &conditions_assignment);
-                treat_result_with_memory_error_void(
+                treat_result_with_memory_error(
                     bus_assignment_response,
                     meta,
                     &mut runtime.runtime_errors,
-- 
2.43.0


From 917b88f2743774a56ea610f84d5f1185e4a91dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 11/38] fix: report accesses to uninitialized or over-indexed
 components and parallel non-templates instead of crashing

---
 type_analysis/src/analyzers/type_check.rs      | 10 +++++++++-
 type_analysis/src/decorators/type_reduction.rs |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 3ad2271..52cca11 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1090,6 +1090,9 @@ fn check_if_it_is_a_tag(
     let (mut kind, mut tags) = if environment.has_component(symbol){ 
         // we are inside component
         let (name, dim) = environment.get_component_or_break(symbol, file!(), line!()).clone();
+        if access_information.0 > dim {
+            return add_report_and_end(ReportCode::InvalidArrayAccess(dim, access_information.0), meta, reports);
+        }
         let current_dim = dim - access_information.0;
         if current_dim != 0{ // only allowed complete accesses to component
             return add_report_and_end(ReportCode::InvalidPartialArray, meta, reports);
@@ -1098,7 +1101,12 @@ fn check_if_it_is_a_tag(
         }
         //current_dim == 0 => component completely defined
         //buses_and_signals.len() > 1 => we are accessing a signal, or a bus and later maybe a tag
-        let template_name = name.unwrap();
+        let template_name = match name {
+            Option::Some(template_name) => template_name,
+            Option::None => {
+                return add_report_and_end(ReportCode::UninitializedComponent, meta, reports);
+            }
+        };
         let (accessed_element,accessed_dim) = buses_and_signals.get(0).unwrap();
         pos += 1;
         num_dims_accessed += accessed_dim; 
diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index b14f4ce..813067d 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -91,7 +91,10 @@ fn reduce_types_in_expression(expression: &mut Expression, environment: &Environ
         PrefixOp { rhe, .. } => reduce_types_in_expression(rhe, environment,program_archive),
         ParallelOp { meta, rhe, .. } => {
             let report = reduce_types_in_expression(rhe, environment,program_archive);
-            meta.get_mut_type_knowledge().set_reduces_to(rhe.get_meta().get_type_knowledge().get_reduces_to());
+            let type_knowledge = rhe.get_meta().get_type_knowledge();
+            if type_knowledge.is_initialized() {
+                meta.get_mut_type_knowledge().set_reduces_to(type_knowledge.get_reduces_to());
+            }
             report
         }
         InlineSwitchOp { cond, if_true, if_false, .. } => {
-- 
2.43.0


From 456122f1e94a551df40db67acd06c25e576c028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 12/38] fix: infer the type of functions that return a call
 with calls to one function in several arguments

---
 type_analysis/src/analyzers/type_given_function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/type_analysis/src/analyzers/type_given_function.rs b/type_analysis/src/analyzers/type_given_function.rs
index 427d11b..7a0cd46 100644
--- a/type_analysis/src/analyzers/type_given_function.rs
+++ b/type_analysis/src/analyzers/type_given_function.rs
@@ -56,13 +56,16 @@ fn start(
         initial_block.insert(name.clone(), t.clone());
     }
     environment.push(initial_block);
-    look_for_return_value(
+    let return_type = look_for_return_value(
         function_name,
         &mut environment,
         explored_functions,
         function_data,
         function_info,
-    )
+    );
+    // only the functions being explored are recursive calls, the others can be typed again
+    explored_functions.remove(function_name);
+    return_type
 }
 
 fn look_for_return_value(
-- 
2.43.0


From ec19c7aa5f0d730e9c196da2e631eb4857c93369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:52 +0000
Subject: [PATCH 13/38] fix: compute the function calls that are a side of ===
 before checking it

---
 compiler/src/hir/sugar_cleaner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 08f0834..5fc6dbe 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -183,6 +183,8 @@ fn extend_constraint_equality(
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
+        call_filter(lhe, state, &mut expands);
+        call_filter(rhe, state, &mut expands);
         switch_filter(lhe, state, &mut expands);
         switch_filter(rhe, state, &mut expands);
         expands
@@ -517,6 +519,13 @@ fn switch_filter(elem: &mut Expression, state: &mut State, inits: &mut Vec<State
     }
 }
 
+fn call_filter(elem: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
+    if elem.is_call() {
+        let id = state.produce_id();
+        *elem = rmv_sugar(&id, elem.clone(), inits);
+    }
+}
+
 fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>) -> Expression {
     use Expression::Variable;
     use Statement::{Declaration, Substitution};
-- 
2.43.0


From 9eec174407652863a7c7b1c07dba831b3393890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 14/38] fix: infer the shape of the result of nested calls to
 one function

---
 compiler/src/hir/type_inference.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index fb633ba..f73b37f 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -252,8 +252,6 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
         if context.open_calls.contains(id) {
             Option::None
         } else {
-            context.open_calls.insert(id.clone());
-            context.environment.add_variable_block();
             let mut index = 0;
             let body = &state.generic_functions.get(id).unwrap().body;
             let names = &state.generic_functions.get(id).unwrap().params_names;
@@ -262,6 +260,8 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
                 return Option::None;
             }
             let arg_types = arg_types.unwrap();
+            context.open_calls.insert(id.clone());
+            context.environment.add_variable_block();
             for arg_type in arg_types {
                 context.environment.add_variable(&names[index], arg_type);
                 index += 1;
-- 
2.43.0


From 5ba7255ffe0666fdf6069413ae75dd6cec5c5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 15/38] fix: compute all the elements of an array before
 assigning it to a variable they read

---
 compiler/src/hir/sugar_cleaner.rs | 41 +++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 5fc6dbe..184339a 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -154,11 +154,11 @@ fn extend_substitution(
     context: &Context,
 ) -> Vec<Statement> {
     use Statement::Substitution;
-    if let Substitution { rhe, access, .. } = stmt {
+    if let Substitution { var, op, rhe, access, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
         
         let mut inits = vec![];
-        for acc in access {
+        for acc in access.iter_mut() {
             if let Access::ArrayAccess(e) = acc {
                 let mut expand = extend_expression(e, state, context);
                 inits.append(&mut expand.initializations);
@@ -168,12 +168,49 @@ fn extend_substitution(
             }
         }
         expands.append(&mut inits);
+        // The array is going to be assigned element by element, so its elements (and the
+        // position that is assigned) have to be computed before the first assignment.
+        let reads_itself = mentions(rhe, var) || accesses_mention(access, var);
+        if *op == AssignOp::AssignVar && rhe.is_array() && reads_itself {
+            let id = state.produce_id();
+            *rhe = rmv_sugar(&id, rhe.clone(), &mut expands);
+        }
         expands
     } else {
         unreachable!()
     }
 }
 
+fn accesses_mention(accesses: &[Access], symbol: &str) -> bool {
+    accesses.iter().any(|acc| match acc {
+        Access::ArrayAccess(index) => mentions(index, symbol),
+        Access::ComponentAccess(_) => false,
+    })
+}
+
+fn mentions(expr: &Expression, symbol: &str) -> bool {
+    use Expression::*;
+    match expr {
+        Number(..) => false,
+        Variable { name, access, .. } => name == symbol || accesses_mention(access, symbol),
+        InfixOp { lhe, rhe, .. } => mentions(lhe, symbol) || mentions(rhe, symbol),
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => mentions(rhe, symbol),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            mentions(cond, symbol) || mentions(if_true, symbol) || mentions(if_false, symbol)
+        }
+        Call { args, .. } | BusCall { args, .. } => args.iter().any(|arg| mentions(arg, symbol)),
+        ArrayInLine { values, .. } | Tuple { values, .. } => {
+            values.iter().any(|value| mentions(value, symbol))
+        }
+        UniformArray { value, dimension, .. } => {
+            mentions(value, symbol) || mentions(dimension, symbol)
+        }
+        AnonymousComp { params, signals, .. } => {
+            params.iter().chain(signals.iter()).any(|value| mentions(value, symbol))
+        }
+    }
+}
+
 fn extend_constraint_equality(
     stmt: &mut Statement,
     state: &mut State,
-- 
2.43.0


From 84d8f02eadd23d484e0efd76cc1301ba9af2b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 16/38] fix: compute what is extracted from an unbraced case of
 a condition only when the case is chosen

---
 compiler/src/hir/sugar_cleaner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 184339a..c0b6f71 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -133,8 +133,11 @@ fn extend_conditional(
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
         let mut expands = vec![];
+        // What is extracted from a case can only be computed if the case is chosen
+        into_block(if_case);
         expands.append(&mut extend_statement(if_case, state, context));
         if let Option::Some(s) = else_case {
+            into_block(s);
             expands.append(&mut extend_statement(s, state, context));
         }
         let mut cond_extension = extend_expression(cond, state, context);
@@ -148,6 +151,13 @@ fn extend_conditional(
     }
 }
 
+fn into_block(stmt: &mut Box<Statement>) {
+    if !stmt.is_block() {
+        let meta = stmt.get_meta().clone();
+        *stmt = Box::new(Statement::Block { meta, stmts: vec![*stmt.clone()] });
+    }
+}
+
 fn extend_substitution(
     stmt: &mut Statement,
     state: &mut State,
-- 
2.43.0


From f08329bc5bb92e77bf8751d74d7614a2576d2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 17/38] fix: a variable of a function hides a constant of the
 same name

---
 .../src/decorators/constants_handler.rs       | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/type_analysis/src/decorators/constants_handler.rs b/type_analysis/src/decorators/constants_handler.rs
index 1a42965..38a1029 100644
--- a/type_analysis/src/decorators/constants_handler.rs
+++ b/type_analysis/src/decorators/constants_handler.rs
@@ -10,7 +10,8 @@ use program_structure::bus_data::BusData;
 use std::collections::HashSet;
 
 type Constants = VarEnvironment<bool>;
-type ExpressionHolder = VarEnvironment<Expression>;
+// The value of the constants, or None for the variables that are not constant
+type ExpressionHolder = VarEnvironment<Option<Expression>>;
 
 pub fn handle_function_constants(function: &mut FunctionData) -> ReportCollection {
     let mut environment = Constants::new();
@@ -32,7 +33,7 @@ pub fn _handle_template_constants(template: &mut TemplateData) -> ReportCollecti
         let name = p.clone();
         let access = vec![];
         let expression = build_variable(meta, name, access);
-        expression_holder.add_variable(p, expression);
+        expression_holder.add_variable(p, Option::Some(expression));
     }
     statement_constant_inference(template.get_mut_body(), &mut environment);
     let reports = statement_invariant_check(template.get_body(), &mut environment);
@@ -49,7 +50,7 @@ pub fn handle_bus_constants(bus: &mut BusData) -> ReportCollection {
         let name = p.clone();
         let access = vec![];
         let expression = build_variable(meta, name, access);
-        expression_holder.add_variable(p, expression);
+        expression_holder.add_variable(p, Option::Some(expression));
     }
     statement_constant_inference(bus.get_mut_body(), &mut environment);
     let reports = statement_invariant_check(bus.get_body(), &mut environment);
@@ -346,18 +347,17 @@ fn expand_initialization_block(
     let mut constants = HashSet::new();
     for s in initializations.iter_mut() {
         expand_statement(s, environment);
-    }
-    for s in initializations.iter_mut() {
         if let Declaration { name, is_constant, .. } = s {
             if *is_constant {
                 constants.insert(name.clone());
+            } else {
+                // it may hide a constant of the same name
+                environment.add_variable(name, Option::None);
             }
         }
-    }
-    for s in initializations.iter_mut() {
         if let Substitution { var, rhe, .. } = s {
             if constants.contains(var) {
-                environment.add_variable(var, rhe.clone());
+                environment.add_variable(var, Option::Some(rhe.clone()));
             }
         }
     }
@@ -542,9 +542,8 @@ fn expand_variable(
     environment: &ExpressionHolder,
 ) -> Expression {
     use Access::*;
-    let is_constant = environment.get_variable_res(&name).is_ok();
-    if is_constant && old_access.is_empty() {
-        let mut expr = environment.get_variable_or_break(&name, file!(), line!()).clone();
+    let constant = environment.get_variable_res(&name).ok().cloned().flatten();
+    if let (Option::Some(mut expr), true) = (constant, old_access.is_empty()) {
         expr.get_mut_meta().change_location(meta.location.clone(), meta.file_id);
         expr
     } else {
-- 
2.43.0


From 345a8e5379b7d309dcbe8ec974f52e2f96915816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 18/38] fix: leave the checks of === out of the wasm code with
 --sanity_check 0

---
 compiler/src/intermediate_representation/assert_bucket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/intermediate_representation/assert_bucket.rs b/compiler/src/intermediate_representation/assert_bucket.rs
index 3e6def3..d285c68 100644
--- a/compiler/src/intermediate_representation/assert_bucket.rs
+++ b/compiler/src/intermediate_representation/assert_bucket.rs
@@ -45,6 +45,9 @@ impl WriteWasm for AssertBucket {
     fn produce_wasm(&self, producer: &WASMProducer) -> Vec<String> {
         use code_producers::wasm_elements::wasm_code_generator::*;
         let mut instructions = vec![];
+        if self.is_constraint_equality && producer.sanity_check_style < 1 {
+            return instructions;
+        }
         if producer.needs_comments() {
             instructions.push(";; assert bucket".to_string());
 	}
-- 
2.43.0


From ce0c8f73ca5c01e3a26d138723ba660498a598c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:43 +0000
Subject: [PATCH 19/38] fix: keep the calls with logs or asserts over unknown
 values that are part of a known expression

---
 constraint_generation/src/execute.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 97df3a8..9c3d274 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -46,6 +46,8 @@ struct RuntimeInformation {
     pub block_type: BlockType,
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
+    // number of logs and of asserts over unknown values executed so far
+    pub effects: usize,
     pub analysis: Analysis,
     pub public_inputs: Vec<String>,
     pub constants: UsefulConstants,
@@ -71,6 +73,7 @@ impl RuntimeInformation {
             anonymous_components: AnonymousComponentsInfo::new(),
             conditions_state: Vec::new(),
             unknown_counter: 0,
+            effects: 0,
         }
     }
 }
@@ -733,6 +736,7 @@ fn execute_statement(
         }
         LogCall { args, .. } => {
             can_be_simplified = false;
+            runtime.effects += 1;
             if flags.verbose{
                 let mut index = 0;
                 for arglog in args {
@@ -774,6 +778,7 @@ fn execute_statement(
                 Some(b) if b => Ok(None),
                 _ => {
                     can_be_simplified = false;
+                    runtime.effects += 1;
                     Ok(None)
                 }
             };
@@ -998,6 +1003,7 @@ fn execute_expression(
 ) -> Result<FoldedValue, ()> {
     use Expression::*;
     let mut can_be_simplified = true;
+    let previous_effects = runtime.effects;
     let res = match expr {
         Number(_, value) => {
             let a_value = AExpr::Number { value: value.clone() };
@@ -1303,8 +1309,13 @@ fn execute_expression(
     let expr_id = expr.get_meta().elem_id;
     let res_p = res.arithmetic_slice.clone();
     if let Some(slice) = res_p {
-        if slice.is_single() && can_be_simplified{
-            let value = AExpressionSlice::unwrap_to_single(slice);
+        if slice.is_single() {
+            // the logs and asserts of the functions that are called have to be kept
+            let value = if can_be_simplified && runtime.effects == previous_effects {
+                AExpressionSlice::unwrap_to_single(slice)
+            } else {
+                AExpr::NonQuadratic
+            };
             Analysis::computed(&mut runtime.analysis, expr_id, value);
         }
     }
-- 
2.43.0


From 22f838307c19f96a7504681736606441a34468a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 20/38] fix: compile circuits with empty arrays of buses or
 signals in the interfaces the witness programs need

---
 compiler/src/circuit_design/build.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 5470b38..0370225 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -388,7 +388,7 @@ fn main_input_list(main: &TemplateInstance, buses: &FieldMap) -> InputList {
 		for i in &io.dimensions {
 		    elems *= i;
 		}
-		let size:usize = io.size/elems;
+		let size:usize = io.size.checked_div(elems).unwrap_or(0);
 		let accesses = get_accesses(0,&io.dimensions);
 		for (a,s) in &accesses {
 		    let prefix = format!("{}{}",io.name.clone(),a);
@@ -503,7 +503,7 @@ fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -
         for len in s.lengths(){
             total_array_size *= len;
         }
-        let individual_size = s.size() / total_array_size;
+        let individual_size = s.size().checked_div(total_array_size).unwrap_or(0);
         if s.xtype() != Intermediate {
             let def = IODef {
                 code: TemplateDB::get_signal_id(database, &instance.template_name, s.name()),
@@ -619,7 +619,7 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            let individual_size = field_info.size.checked_div(total_array_size).unwrap_or(0);
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
-- 
2.43.0


From 28a6a679cd8298c8e065a4d33ed13c7e744581cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 21/38] fix: accept arrays of inputs that mix numbers and
 strings in the JavaScript witness calculator, as the C++ one does

---
 code_producers/src/wasm_elements/common/witness_calculator.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 4f16502..11abb1c 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -295,7 +295,7 @@ function qualify_input(prefix,input,input1) {
 	if (a.length > 0) {
 	    let t = typeof a[0];
 	    for (let i = 1; i<a.length; i++) {
-		if (typeof a[i] != t){
+		if ((typeof a[i] == "object") != (t == "object")){
 		    throw new Error(`Types are not the same in the key ${prefix}`);
 		}
 	    }
-- 
2.43.0


From 0ea4663df728e8b96f17ea1e2e1aeb36105a3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 22/38] fix: reject unknown input names given an empty array in
 the wasm witness program

---
 code_producers/src/wasm_elements/wasm_code_generator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..e378a4a 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -1209,6 +1209,7 @@ pub fn get_input_signal_size_generator(_producer: &WASMProducer) -> Vec<WasmInst
     instructions.push(" (param $hmsb i32)".to_string());
     instructions.push(" (param $hlsb i32)".to_string());
     instructions.push("(result i32)".to_string());
+    instructions.push(" (local $mp i32) ;; map position".to_string());
     instructions.push(get_local("$hmsb"));
     instructions.push(extend_i32_u64());
     instructions.push(set_constant_64("32"));
@@ -1217,6 +1218,13 @@ pub fn get_input_signal_size_generator(_producer: &WASMProducer) -> Vec<WasmInst
     instructions.push(extend_i32_u64());
     instructions.push(or64());
     instructions.push(call("$getInputSignalMapPosition"));
+    instructions.push(tee_local("$mp"));
+    instructions.push(eqz32());
+    instructions.push(add_if());
+    instructions.push(set_constant("-1")); // there is no input with this name
+    instructions.push(add_return());
+    instructions.push(add_end());
+    instructions.push(get_local("$mp"));
     instructions.push(load32(Some("12")));
     instructions.push(")".to_string());
     instructions
-- 
2.43.0


From 7407ece3741bc59b29534c4c4ccdf154a5fccce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 23/38] fix: recognise the initial file when it is included

---
 parser/src/include_logic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..f099089 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -55,6 +55,10 @@ impl FileStack {
                     f_stack.current_location = file.clone();
                     f_stack.current_location.pop();
                     f_stack.black_paths.insert(file.clone());
+                    // the initial file may be included with its canonical path
+                    if let Ok(path) = std::fs::canonicalize(&file) {
+                        f_stack.black_paths.insert(path);
+                    }
                     break Some(file);
                 }
                 _ => {}
@@ -124,7 +128,8 @@ impl IncludesGraph {
         if !using_pragma {
             problematic_paths.push(new_path.clone());
         }
-        if let Some(edges) = self.adjacency.get(from_path) {
+        let canonical_path = std::fs::canonicalize(from_path).unwrap_or(from_path.clone());
+        if let Some(edges) = self.adjacency.get(&canonical_path) {
             for to in edges {
                 let edge = (from, *to);
                 if !traversed_edges.contains(&edge) {
-- 
2.43.0


From ebd1eea01010d5cb0cb4f91649afe2398a41bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 24/38] fix: list the parameters of custom gates in the order
 of their declaration

---
 constraint_generation/src/execute.rs                       | 1 +
 .../src/execution_data/executed_template.rs                | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 9c3d274..e48b776 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -3492,6 +3492,7 @@ fn execute_template_call(
             is_main,
             id.to_string(),
             instantiation_name,
+            args_names.clone(),
             args_to_values,
             tag_values,
             code,
diff --git a/constraint_generation/src/execution_data/executed_template.rs b/constraint_generation/src/execution_data/executed_template.rs
index ed95f02..7cd3a02 100644
--- a/constraint_generation/src/execution_data/executed_template.rs
+++ b/constraint_generation/src/execution_data/executed_template.rs
@@ -73,6 +73,7 @@ pub struct ExecutedTemplate {
     pub components: ComponentCollector,
     pub number_of_components: usize,
     pub public_inputs: HashSet<String>,
+    pub parameter_names: Vec<String>, // in the order of their declaration
     pub parameter_instances: ParameterContext,
     pub tag_instances: HashMap<String, TagWire>,
     pub signal_to_tags: HashMap<Vec<String>, BigInt>, 
@@ -92,6 +93,7 @@ impl ExecutedTemplate {
         public: Vec<String>,
         name: String,
         report_name: String,
+        parameter_names: Vec<String>,
         instance: ParameterContext,
         tag_instances: HashMap<String, TagWire>,
         code: Statement,
@@ -110,6 +112,7 @@ impl ExecutedTemplate {
             is_custom_gate,
             code: code.clone(),
             template_name: name,
+            parameter_names,
             parameter_instances: instance,
             signal_to_tags: HashMap::new(),
             tag_instances,
@@ -246,8 +249,8 @@ impl ExecutedTemplate {
     pub fn insert_in_dag(&mut self, dag: &mut DAG, buses_info : &Vec<ExecutedBus>) {
         let parameters = {
             let mut parameters = vec![];
-            for (_, data) in self.parameter_instances.clone() {
-                let (_, values) = data.destruct();
+            for name in &self.parameter_names {
+                let (_, values) = self.parameter_instances[name].clone().destruct();
                 for value in as_big_int(values) {
                     parameters.push(value);
                 }
-- 
2.43.0


From 3bb5e8bf87a28a1cbfbf7ed9a386dc9af641388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 25/38] fix: report a non quadratic expression assigned with _
 <== instead of crashing

---
 constraint_generation/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index e48b776..8104a59 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -801,6 +801,14 @@ fn execute_statement(
                             &mut runtime.runtime_errors,
                             &runtime.call_trace,
                         )?;
+                        if value_cell.is_nonquadratic() {
+                            treat_result_with_execution_error(
+                                Result::Err(ExecutionError::NonQuadraticConstraint),
+                                meta,
+                                &mut runtime.runtime_errors,
+                                &runtime.call_trace,
+                            )?;
+                        }
                         let constraint_expression = AExpr::transform_expression_to_constraint_form(
                             value_cell,
                             runtime.constants.get_p(),
-- 
2.43.0


From 5f1458f7893b8d71f87fb4ecb898469856be5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 26/38] fix: buses assigned with <-- do not take the tags of
 what is assigned, as signals do not

---
 constraint_generation/src/execute.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 8104a59..51a5647 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -2481,7 +2481,11 @@ fn perform_assign(
 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal{
+                    r_folded.tags.clone().unwrap()
+                } else{
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
@@ -2581,7 +2585,11 @@ fn perform_assign(
                 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal{
+                    r_folded.tags.clone().unwrap()
+                } else{
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
-- 
2.43.0


From 733938b40e1de28a255d609b894701512516ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 27/38] fix: name the instances of templates with several
 tagged inputs in a fixed order

---
 constraint_generation/src/execute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 51a5647..24019d0 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -3479,7 +3479,9 @@ fn execute_template_call(
         not_empty_name = true;
         args_to_values.insert(name.clone(), value.clone());
     }
-    for (_input, input_tags) in &tag_values{
+    // in a fixed order: the name of the instance must not depend on the hash map
+    let ordered_tag_values: BTreeMap<_, _> = tag_values.iter().collect();
+    for (_input, input_tags) in ordered_tag_values{
         // TODO: does not got inside bus
         for (_tag, value) in &input_tags.tags {
             if value.is_none(){
-- 
2.43.0


From fa3e21083e28895fb47d216817aa1e8c10e68216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 28/38] fix: report outputs that cannot be written instead of
 crashing or claiming success

---
 circom/src/compilation_user.rs                | 20 +++++++++++---
 .../src/c_elements/c_code_generator.rs        | 18 ++++++-------
 .../src/wasm_elements/wasm_code_generator.rs  |  6 ++---
 constraint_generation/src/lib.rs              | 17 +++++++-----
 .../src/constraint_simplification.rs          | 27 +++++++++++--------
 constraint_list/src/lib.rs                    |  8 +++---
 dag/src/lib.rs                                |  2 +-
 dag/src/map_to_constraint_list.rs             |  2 +-
 8 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/circom/src/compilation_user.rs b/circom/src/compilation_user.rs
index 7b1bdad..85a865d 100644
--- a/circom/src/compilation_user.rs
+++ b/circom/src/compilation_user.rs
@@ -115,7 +115,10 @@ pub fn compile(config: CompilerConfig) -> Result<(), ()> {
             (false, true) => {
                 compiler_interface::write_wasm(&circuit,  &config.js_folder, &config.wasm_name, &config.wat_file)?;
                 let result = wat_to_wasm(&config.wat_file, &config.wasm_file);
-                std::fs::remove_file(&config.wat_file).unwrap();
+                let wat_file = &config.wat_file;
+                std::fs::remove_file(wat_file).map_err(|_err| {
+                    eprintln!("{}", Colour::Red.paint(format!("Could not remove {}", wat_file)))
+                })?;
                 match result {
                     Result::Err(report) => {
                         Report::print_reports(&[report], &FileLibrary::new());
@@ -147,8 +150,14 @@ fn wat_to_wasm(wat_file: &str, wasm_file: &str) -> Result<(), Report> {
     use wast::Wat;
     use wast::parser::{self, ParseBuffer};
 
-    let wat_contents = read_to_string(wat_file).unwrap();
-    let buf = ParseBuffer::new(&wat_contents).unwrap();
+    let wat_contents = read_to_string(wat_file).map_err(|_err| Report::error(
+        format!("Error reading the WAT of the circuit. Exception generated: {}", _err),
+        ReportCode::ErrorWat2Wasm,
+    ))?;
+    let buf = ParseBuffer::new(&wat_contents).map_err(|_err| Report::error(
+        format!("Error translating the circuit from wat to wasm.\n\nException encountered when parsing WAT: {}", _err),
+        ReportCode::ErrorWat2Wasm,
+    ))?;
     let result_wasm_contents = parser::parse::<Wat>(&buf);
     match result_wasm_contents {
         Result::Err(error) => {
@@ -167,7 +176,10 @@ fn wat_to_wasm(wat_file: &str, wasm_file: &str) -> Result<(), Report> {
                     ))
                 }
                 Result::Ok(wasm_contents) => {
-                    let file = File::create(wasm_file).unwrap();
+                    let file = File::create(wasm_file).map_err(|_err| Report::error(
+                        format!("Error writing the circuit. Exception generated: {}", _err),
+                        ReportCode::ErrorWat2Wasm,
+                    ))?;
                     let mut writer = BufWriter::new(file);
                     writer.write_all(&wasm_contents).map_err(|_err| Report::error(
                         format!("Error writing the circuit. Exception generated: {}", _err),
diff --git a/code_producers/src/c_elements/c_code_generator.rs b/code_producers/src/c_elements/c_code_generator.rs
index 6ba884b..cbedf79 100644
--- a/code_producers/src/c_elements/c_code_generator.rs
+++ b/code_producers/src/c_elements/c_code_generator.rs
@@ -967,7 +967,7 @@ pub fn generate_main_cpp_file(c_folder: &PathBuf, producer: &CProducer) -> std::
     file_path.push("main");
     file_path.set_extension("cpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     c_file.write_all(code.as_bytes())?;
     c_file.flush()?;
     Ok(())
@@ -979,7 +979,7 @@ pub fn generate_circom_hpp_file(c_folder: &PathBuf, producer: &CProducer) -> std
     file_path.push("circom");
     file_path.set_extension("hpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = if producer.prime_str != "goldilocks" {
         include_str!("common/circom.hpp")
@@ -998,7 +998,7 @@ pub fn generate_fr_hpp_file(c_folder: &PathBuf, prime: &String, producer: &CProd
     file_path.push("fr");
     file_path.set_extension("hpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     if producer.prime_str != "goldilocks" && producer.no_asm {
         let p = producer.get_prime().parse::<BigInt>().unwrap();
@@ -1043,7 +1043,7 @@ pub fn generate_calcwit_hpp_file(c_folder: &PathBuf, producer: &CProducer) -> st
     file_path.push("calcwit");
     file_path.set_extension("hpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = if producer.prime_str != "goldilocks" { include_str!("common/calcwit.hpp")
     } else { include_str!("common64/calcwit.hpp")};
@@ -1080,7 +1080,7 @@ pub fn generate_fr_cpp_file(c_folder: &PathBuf, prime: &String,  producer: &CPro
         file_path.push("fr");
         file_path.set_extension("cpp");
         let file_name = file_path.to_str().unwrap();
-        let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+        let mut c_file = BufWriter::new(File::create(file_name)?);
         let mut code = "".to_string();
         if producer.no_asm {
             use circom_algebra::num_traits::ToPrimitive;
@@ -1158,7 +1158,7 @@ pub fn generate_calcwit_cpp_file(c_folder: &PathBuf, producer: &CProducer) -> st
     file_path.push("calcwit");
     file_path.set_extension("cpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = if producer.prime_str != "goldilocks" { include_str!("common/calcwit.cpp")
     } else { include_str!("common64/calcwit.cpp")};
@@ -1177,7 +1177,7 @@ pub fn generate_fr_asm_file(c_folder: &PathBuf, prime: &String, producer: &CProd
         file_path.push("fr");
         file_path.set_extension("asm");
         let file_name = file_path.to_str().unwrap();
-        let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+        let mut c_file = BufWriter::new(File::create(file_name)?);
         let mut code = "".to_string();
         let file = match prime.as_ref(){
             "bn128" => include_str!("bn128/fr.asm"),
@@ -1225,7 +1225,7 @@ pub fn generate_make_file(
     let mut file_path = c_folder.clone();
     file_path.push("Makefile");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     c_file.write_all(code.as_bytes())?;
     c_file.flush()?;
     Ok(())
@@ -1237,7 +1237,7 @@ pub fn generate_json2bin64(c_folder: &PathBuf, producer: &CProducer) -> std::io:
     file_path.push("json2bin64");
     file_path.set_extension("cpp");
     let file_name = file_path.to_str().unwrap();
-    let mut c_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut c_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     assert!(producer.prime_str == "goldilocks");
     let file = include_str!("common64/json2bin64.cpp");
diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index e378a4a..b72b2b4 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -1779,7 +1779,7 @@ pub fn generate_utils_js_file(js_folder: &PathBuf) -> std::io::Result<()> {
     file_path.push("utils");
     file_path.set_extension("js");
     let file_name = file_path.to_str().unwrap();
-    let mut js_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut js_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = include_str!("utils.js");
     for line in file.lines() {
@@ -1797,7 +1797,7 @@ pub fn generate_generate_witness_js_file(js_folder: &PathBuf) -> std::io::Result
     file_path.push("generate_witness");
     file_path.set_extension("js");
     let file_name = file_path.to_str().unwrap();
-    let mut js_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut js_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = include_str!("common/generate_witness.js");
     for line in file.lines() {
@@ -1814,7 +1814,7 @@ pub fn generate_witness_calculator_js_file(js_folder: &PathBuf) -> std::io::Resu
     file_path.push("witness_calculator");
     file_path.set_extension("js");
     let file_name = file_path.to_str().unwrap();
-    let mut js_file = BufWriter::new(File::create(file_name).unwrap());
+    let mut js_file = BufWriter::new(File::create(file_name)?);
     let mut code = "".to_string();
     let file = include_str!("common/witness_calculator.js");
     for line in file.lines() {
diff --git a/constraint_generation/src/lib.rs b/constraint_generation/src/lib.rs
index 90eb2f5..9acce77 100644
--- a/constraint_generation/src/lib.rs
+++ b/constraint_generation/src/lib.rs
@@ -63,14 +63,15 @@ pub fn build_circuit(program: ProgramArchive, config: BuildConfig) -> BuildRespo
         sync_dag_and_vcp(&mut vcp, &mut dag);
         if config.flag_json_sub { 
             use constraint_writers::json_writer::SubstitutionJSON;
-            let substitution_log = SubstitutionJSON::new(&config.json_substitutions).unwrap();
-            let _ = substitution_log.end();
+            SubstitutionJSON::new(&config.json_substitutions)
+                .and_then(|substitution_log| substitution_log.end())
+                .map_err(|_| substitutions_not_written())?;
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
 
         Result::Ok((Box::new(dag), vcp))
     } else {
-        let list = simplification_process(&mut vcp, dag, &config);
+        let list = simplification_process(&mut vcp, dag, &config)?;
         if config.flag_json_sub { 
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
@@ -103,7 +104,11 @@ fn sync_dag_and_vcp(vcp: &mut VCP, dag: &mut DAG) {
     VCP::add_witness_list(vcp, Rc::clone(&witness));
 }
 
-fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> ConstraintList {
+fn substitutions_not_written() {
+    eprintln!("{}", Colour::Red.paint("Could not write the substitutions in the given path"));
+}
+
+fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> Result<ConstraintList, ()> {
     use dag::SimplificationFlags;
     let flags = SimplificationFlags {
         flag_s: config.flag_s,
@@ -114,7 +119,7 @@ fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> Cons
         flag_old_heuristics: config.flag_old_heuristics,
         prime : config.prime.clone(),
     };
-    let list = DAG::map_to_list(dag, flags);
+    let list = DAG::map_to_list(dag, flags).map_err(|_| substitutions_not_written())?;
     VCP::add_witness_list(vcp, Rc::new(list.get_witness_as_vec()));
-    list
+    Ok(list)
 }
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index a9ce9aa..38f009e 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -6,12 +6,17 @@ use constraint_writers::json_writer::SubstitutionJSON;
 use std::collections::{HashMap, HashSet, LinkedList, BTreeSet};
 use std::sync::Arc;
 
-fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionJSON>) {
+// The file where the substitutions are logged, or Err if it could not be written
+type SubstitutionLog = Result<SubstitutionJSON, ()>;
+
+fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionLog>) {
     use super::json_porting::port_substitution;
-    if let Some(w) = writer {
-        for s in substitutions {
+    for s in substitutions {
+        if let Some(Ok(w)) = writer {
             let (from, to) = port_substitution(s);
-            w.write_substitution(&from, &to).unwrap();
+            if w.write_substitution(&from, &to).is_err() {
+                *writer = Some(Err(()));
+            }
         }
     }
 }
@@ -200,7 +205,7 @@ fn eq_simplification(
     forbidden: Arc<HashSet<usize>>,
     no_vars: usize,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<SubstitutionLog>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     use std::sync::mpsc;
     use threadpool::ThreadPool;
@@ -256,7 +261,7 @@ fn constant_eq_simplification(
     c_eq: LinkedList<C>,
     forbidden: &HashSet<usize>,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<SubstitutionLog>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
@@ -275,7 +280,7 @@ fn constant_eq_simplification(
 }
 
 fn linear_simplification(
-    log: &mut Option<SubstitutionJSON>,
+    log: &mut Option<SubstitutionLog>,
     linear: LinkedList<C>,
     forbidden: Arc<HashSet<usize>>,
     no_labels: usize,
@@ -443,7 +448,7 @@ fn remove_not_relevant(substitutions: &mut SEncoded, relevant: &HashSet<usize>)
 
 
 // returns the constraints, the assignment of the witness and the number of inputs in the witness
-pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, usize) {
+pub fn simplification(smp: &mut Simplifier) -> Result<(ConstraintStorage, SignalMap, usize), ()> {
     use super::non_linear_utils::obtain_and_simplify_non_linear;
     use circom_algebra::simplification_utils::build_encoded_fast_substitutions;
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
@@ -451,7 +456,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let mut substitution_log =
         if smp.port_substitution { 
-            Some(SubstitutionJSON::new(&smp.json_substitutions).unwrap()) 
+            Some(SubstitutionJSON::new(&smp.json_substitutions)) 
         } else {
              None 
         };
@@ -727,10 +732,10 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
 
     if let Some(w) = substitution_log {
-        w.end().unwrap();
+        w?.end()?;
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
-    (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
+    Ok((constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs))
 }
 
 
diff --git a/constraint_list/src/lib.rs b/constraint_list/src/lib.rs
index 969400b..f1ecb1b 100644
--- a/constraint_list/src/lib.rs
+++ b/constraint_list/src/lib.rs
@@ -128,9 +128,9 @@ pub struct Simplifier {
     pub json_substitutions: String,
 }
 impl Simplifier {
-    pub fn simplify_constraints(mut self) -> ConstraintList {
-        let (portable, map, private_inputs_witness) = constraint_simplification::simplification(&mut self);
-        ConstraintList {
+    pub fn simplify_constraints(mut self) -> Result<ConstraintList, ()> {
+        let (portable, map, private_inputs_witness) = constraint_simplification::simplification(&mut self)?;
+        Ok(ConstraintList {
             field: self.field,
             dag_encoding: self.dag_encoding,
             no_public_outputs: self.no_public_outputs,
@@ -140,7 +140,7 @@ impl Simplifier {
             no_labels: self.max_signal,
             constraints: portable,
             signal_map: map,
-        }
+        })
     }
 
     pub fn no_labels(&self) -> usize {
diff --git a/dag/src/lib.rs b/dag/src/lib.rs
index 19d325d..6afe655 100644
--- a/dag/src/lib.rs
+++ b/dag/src/lib.rs
@@ -538,7 +538,7 @@ impl DAG {
         }
     }
 
-    pub fn map_to_list(self, flags: SimplificationFlags) -> ConstraintList {
+    pub fn map_to_list(self, flags: SimplificationFlags) -> Result<ConstraintList, ()> {
         map_to_constraint_list::map(self, flags)
     }
 }
diff --git a/dag/src/map_to_constraint_list.rs b/dag/src/map_to_constraint_list.rs
index bccec4c..0e30b79 100644
--- a/dag/src/map_to_constraint_list.rs
+++ b/dag/src/map_to_constraint_list.rs
@@ -107,7 +107,7 @@ fn map_edge_to_encoding(edge: Edge) -> EncodingEdge {
     EncodingEdge { goes_to: edge.goes_to, path: edge.label, offset: edge.in_number }
 }
 
-pub fn map(dag: DAG, flags: SimplificationFlags) -> ConstraintList {
+pub fn map(dag: DAG, flags: SimplificationFlags) -> Result<ConstraintList, ()> {
     use std::time::SystemTime;
     // println!("Start of dag to list mapping");
     let now = SystemTime::now();
-- 
2.43.0


From a41c137b8936191eea113127dc3bc9732635adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 29/38] fix: report arguments that are not valid UTF-8 instead
 of crashing

---
 circom/src/input_user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circom/src/input_user.rs b/circom/src/input_user.rs
index 2ca0b97..950f02b 100644
--- a/circom/src/input_user.rs
+++ b/circom/src/input_user.rs
@@ -237,7 +237,7 @@ impl Input {
 }
 mod input_processing {
     use ansi_term::Colour;
-    use clap::{App, Arg, ArgMatches};
+    use clap::{App, AppSettings, Arg, ArgMatches};
     use std::path::{Path, PathBuf};
     use crate::VERSION;
 
@@ -396,6 +396,7 @@ mod input_processing {
 
     pub fn view() -> ArgMatches<'static> {
         App::new("circom compiler")
+            .setting(AppSettings::StrictUtf8)
             .version(VERSION)
             .author("IDEN3")
             .about("Compiler for the circom programming language")
-- 
2.43.0


From 69df4d1352cdd1b46739fbde1399c1ee73734571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 30/38] fix: list the files written for goldilocks with
 --no_asm

---
 circom/src/compilation_user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circom/src/compilation_user.rs b/circom/src/compilation_user.rs
index 85a865d..3d5edad 100644
--- a/circom/src/compilation_user.rs
+++ b/circom/src/compilation_user.rs
@@ -53,7 +53,7 @@ pub fn compile(config: CompilerConfig) -> Result<(), ()> {
                 config.c_file,
                 config.dat_file
             );
-            if config.no_asm_flag {                
+            if config.no_asm_flag && config.prime != "goldilocks" {
                 println!(
                     "{} {}/{}, {}, {}, {}, {}, {} and {}",
                     Colour::Green.paint("Written successfully:"),
-- 
2.43.0


From 7570be32ffedd5291e3aa918e261f84d2679ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 31/38] fix: report 0x without digits and over-long version
 numbers instead of crashing

---
 parser/src/lang.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 681db7f..379efc1 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -840,7 +840,7 @@ DECNUMBER: BigInt = {
 };
 
 HEXNUMBER : BigInt = {
-    r"0x[0-9A-Fa-f]*" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
+    r"0x[0-9A-Fa-f]+" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
 };
 
 IDENTIFIER : String = {
@@ -852,7 +852,8 @@ STRING : String = {
 };
 
 SMALL_DECNUMBER: usize = {
-    r"[0-9]+" => usize::from_str(<>).expect("failed to parse number")
+    // numbers that do not fit are greater than those of any version
+    r"[0-9]+" => usize::from_str(<>).unwrap_or(usize::MAX)
 };
 
 
-- 
2.43.0


From 279abeb4f74d2a5a2f51b80a4512697ef7b0484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 32/38] fix: call the parallel version of main when its
 template is parallel

---
 compiler/src/circuit_design/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 0370225..c090268 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
-- 
2.43.0


From f49e05f61e4c42453b5e8eefe11b89e4043ff254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 33/38] fix: allocate one entry per bus field in the C++ loader

---
 code_producers/src/c_elements/common/main.cpp   | 2 +-
 code_producers/src/c_elements/common64/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..e9b1cb7 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -108,7 +108,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..5588bb7 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -101,7 +101,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From 302eb34e4af837305480e1cf377dfc7c0d0c2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 34/38] fix: print log strings verbatim in both witness
 programs

---
 code_producers/src/lib.rs                     | 25 +++++++++++++++++++
 .../common/witness_calculator.js              |  6 ++---
 .../src/wasm_elements/wasm_code_generator.rs  | 20 ++++++---------
 .../intermediate_representation/log_bucket.rs | 11 +++++++-
 .../statement_builders.rs                     |  6 ++++-
 5 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/code_producers/src/lib.rs b/code_producers/src/lib.rs
index 46fd883..e8822be 100644
--- a/code_producers/src/lib.rs
+++ b/code_producers/src/lib.rs
@@ -5,3 +5,28 @@ pub mod wasm_elements;
 
 pub mod components;
 
+
+/// The bytes a log string denotes: `\n`, `\t`, `\r`, `\'` and `\\` are escape sequences, any other
+/// backslash stands for itself.
+pub fn log_string_bytes(string: &str) -> Vec<u8> {
+    let mut bytes = vec![];
+    let mut rest = string.bytes().peekable();
+    while let Some(byte) = rest.next() {
+        let escaped = match (byte, rest.peek()) {
+            (b'\\', Some(b'n')) => Some(b'\n'),
+            (b'\\', Some(b't')) => Some(b'\t'),
+            (b'\\', Some(b'r')) => Some(b'\r'),
+            (b'\\', Some(b'\'')) => Some(b'\''),
+            (b'\\', Some(b'\\')) => Some(b'\\'),
+            _ => None,
+        };
+        match escaped {
+            Some(value) => {
+                rest.next();
+                bytes.push(value);
+            }
+            None => bytes.push(byte),
+        }
+    }
+    bytes
+}
diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 11abb1c..fe3a2e3 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -79,13 +79,13 @@ module.exports = async function builder(code, options) {
     return wc;
 
     function getMessage() {
-        var message = "";
+        const message = [];
 	var c = instance.exports.getMessageChar();
         while ( c != 0 ) {
-	    message += String.fromCharCode(c);
+	    message.push(c);
 	    c = instance.exports.getMessageChar();
 	}
-        return message;
+        return new TextDecoder("utf-8", { ignoreBOM: true }).decode(Uint8Array.from(message));
     }
 	
     function printSharedRWMemory () {
diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index b72b2b4..52aa9c9 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -764,19 +764,13 @@ pub fn generate_data_list(producer: &WASMProducer) -> Vec<WasmInstruction> {
     let st = producer.get_string_table();
     let s = producer.get_string_list_start();
     for i in 0..st.len() {
-        if st[i].len() < producer.get_size_of_message_in_bytes() {
-            wdata.push(format!(
-                "(data (i32.const {}) \"{}\\00\")",
-                s + i * producer.get_size_of_message_in_bytes(),
-                st[i]
-            ));
-        } else {
-            wdata.push(format!(
-                "(data (i32.const {}) \"{}\\00\")",
-                s + i * producer.get_size_of_message_in_bytes(),
-                &st[i][..producer.get_size_of_message_in_bytes()-1]
-            ));
-        }
+        let mut bytes = crate::log_string_bytes(&st[i]);
+        bytes.truncate(producer.get_size_of_message_in_bytes() - 1);
+        wdata.push(format!(
+            "(data (i32.const {}) \"{}\\00\")",
+            s + i * producer.get_size_of_message_in_bytes(),
+            bytes.iter().map(|byte| format!("\\{:02x}", byte)).collect::<String>()
+        ));
     }
     wdata.push(format!(";; constants"));
     wdata.push(format!(
diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 3004414..a7ec156 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -126,10 +126,19 @@ impl WriteC for LogBucket {
             else if let LogBucketArg::LogStr(string_id) = logarg {
                 let string_value = &producer.get_string_table()[*string_id];
 
+                // octal escapes keep the compiler and printf from interpreting the string
+                let literal: String = code_producers::log_string_bytes(string_value)
+                    .iter()
+                    .map(|byte| match byte {
+                        b'"' | b'\\' | b'?' => format!("\\{:03o}", byte),
+                        b' '..=b'~' => (*byte as char).to_string(),
+                        _ => format!("\\{:03o}", byte),
+                    })
+                    .collect();
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec![format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", literal)]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..92b5549 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -70,7 +70,11 @@ fn split_string(str: String) -> Vec<LogArgument> {
     let sub_len = 230;
     let mut cur = str;
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
+        let mut len = std::cmp::min(sub_len, cur.len());
+        while !cur.is_char_boundary(len) {
+            len -= 1;
+        }
+        let (chunk, rest) = cur.split_at(len);
         v.push(LogArgument::LogStr(chunk.to_string()));
         cur = rest.to_string();
     }
-- 
2.43.0


From aa41d43c20acfa287f0ef8e372b0d9b5bff22a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:11 +0000
Subject: [PATCH 35/38] fix: make both witness programs accept the same
 spellings of inputs, and report unwritable witness files

---
 code_producers/src/c_elements/common/main.cpp | 42 ++++++++++++-------
 .../src/c_elements/common64/main.cpp          | 42 ++++++++++++-------
 .../common/witness_calculator.js              |  4 ++
 3 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index e9b1cb7..3521f53 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -8,6 +8,7 @@
 #include <unistd.h>
 #include <nlohmann/json.hpp>
 #include <vector>
+#include <cmath>
 #include <chrono>
 
 using json = nlohmann::json;
@@ -124,7 +125,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 }
 
 bool check_valid_number(std::string & s, uint base){
-  bool is_valid = true;
+  bool is_valid = s.size() > 0;
   if (base == 16){
     for (uint i = 0; i < s.size(); i++){
       is_valid &= (
@@ -162,13 +163,20 @@ void json2FrElements (json val, std::vector<FrElement> & vval){
         s = s_aux;
         base = 10;
       }
-      if (!check_valid_number(s, base)){
+      bool is_negative = base == 10 && s.size() > 0 && s[0] == '-';
+      std::string digits = is_negative ? s.substr(1, s.size() - 1) : s;
+      if (!check_valid_number(digits, base)){
         std::ostringstream errStrStream;
         errStrStream << "Invalid number in JSON input: " << s_aux << "\n";
 	      throw std::runtime_error(errStrStream.str() );
       }
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (vd != std::floor(vd)) {
+          std::ostringstream errStrStream;
+          errStrStream << "Invalid number in JSON input: " << vd << "\n";
+	      throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
@@ -188,15 +196,17 @@ void json2FrElements (json val, std::vector<FrElement> & vval){
 }
 
 json::value_t check_type(std::string prefix, json in){
+  // object or, for any other value, number_integer; null if there are no values
   if (not in.is_array()) {
-    if (in.is_number_integer() || in.is_number_unsigned() || in.is_string())
-      return json::value_t::number_integer;
-    else  return in.type();
-    } else {
-    if (in.size() == 0) return json::value_t::null;
-    json::value_t t = check_type(prefix, in[0]);
-    for (uint i = 1; i < in.size(); i++) {
-      if (t != check_type(prefix, in[i])) {
+    if (in.is_object()) return json::value_t::object;
+    else return json::value_t::number_integer;
+  } else {
+    json::value_t t = json::value_t::null;
+    for (uint i = 0; i < in.size(); i++) {
+      json::value_t ti = check_type(prefix, in[i]);
+      if (ti == json::value_t::null) continue;
+      if (t == json::value_t::null) t = ti;
+      if (t != ti) {
 	fprintf(stderr, "Types are not the same in the key %s\n",prefix.c_str());
 	assert(false);
       }
@@ -251,11 +261,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
-    ctx->tryRunCircuit();
-  }
+  // printf("Items : %llu\n",(u64)j.size());
+  ctx->tryRunCircuit(); // runs it now only if it has no input signals
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
     // std::cout << it.key() << " => " << it.value() << '\n';
     u64 h = fnv1a(it.key());
@@ -289,6 +296,7 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) handle_error(wtnsFileName.c_str());
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -330,7 +338,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
         Fr_toLongNormal(&v, &v);
         fwrite(v.longVal, Fr_N64*8, 1, write_ptr);
     }
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    failed = fclose(write_ptr) != 0 || failed;
+    if (failed) handle_error(wtnsFileName.c_str());
 }
 
 int main (int argc, char *argv[]) {
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 5588bb7..4f62422 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -8,6 +8,7 @@
 #include <unistd.h>
 #include <nlohmann/json.hpp>
 #include <vector>
+#include <cmath>
 #include <chrono>
 
 using json = nlohmann::json;
@@ -117,7 +118,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 }
 
 bool check_valid_number(std::string & s, uint base){
-  bool is_valid = true;
+  bool is_valid = s.size() > 0;
   if (base == 16){
     for (uint i = 0; i < s.size(); i++){
       is_valid &= (
@@ -166,13 +167,20 @@ void json2FrElements (json val, std::vector<u64> & vval){
         s = s_aux;
         base = 10;
       }
-      if (!check_valid_number(s, base)){
+      bool is_negative = base == 10 && s.size() > 0 && s[0] == '-';
+      std::string digits = is_negative ? s.substr(1, s.size() - 1) : s;
+      if (!check_valid_number(digits, base)){
         std::ostringstream errStrStream;
         errStrStream << "Invalid number in JSON input: " << s_aux << "\n";
 	      throw std::runtime_error(errStrStream.str() );
       }
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (vd != std::floor(vd)) {
+          std::ostringstream errStrStream;
+          errStrStream << "Invalid number in JSON input: " << vd << "\n";
+	      throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
@@ -192,15 +200,17 @@ void json2FrElements (json val, std::vector<u64> & vval){
 }
 
 json::value_t check_type(std::string prefix, json in){
+  // object or, for any other value, number_integer; null if there are no values
   if (not in.is_array()) {
-    if (in.is_number_integer() || in.is_number_unsigned() || in.is_string())
-      return json::value_t::number_integer;
-    else  return in.type();
-    } else {
-    if (in.size() == 0) return json::value_t::null;
-    json::value_t t = check_type(prefix, in[0]);
-    for (uint i = 1; i < in.size(); i++) {
-      if (t != check_type(prefix, in[i])) {
+    if (in.is_object()) return json::value_t::object;
+    else return json::value_t::number_integer;
+  } else {
+    json::value_t t = json::value_t::null;
+    for (uint i = 0; i < in.size(); i++) {
+      json::value_t ti = check_type(prefix, in[i]);
+      if (ti == json::value_t::null) continue;
+      if (t == json::value_t::null) t = ti;
+      if (t != ti) {
 	fprintf(stderr, "Types are not the same in the the key %s\n",prefix.c_str());
 	assert(false);
       }
@@ -275,11 +285,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
-    ctx->tryRunCircuit();
-  }
+  // printf("Items : %llu\n",(u64)j.size());
+  ctx->tryRunCircuit(); // runs it now only if it has no input signals
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
     // std::cout << it.key() << " => " << it.value() << '\n';
     u64 h = fnv1a(it.key());
@@ -313,6 +320,7 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) handle_error(wtnsFileName.c_str());
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -355,7 +363,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     }
     fwrite(v, 8, Nwtns, write_ptr);
 
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    failed = fclose(write_ptr) != 0 || failed;
+    if (failed) handle_error(wtnsFileName.c_str());
 }
 
 int main (int argc, char *argv[]) {
diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index fe3a2e3..533e7c6 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -361,6 +361,10 @@ function flatArray(a) {
 }
 
 function normalize(n, prime) {
+    // BigInt would take blank strings, surrounding blanks, a leading + and booleans as numbers
+    if (typeof n == "boolean" || (typeof n == "string" && !/^(-?[0-9]+|0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+)$/.test(n))) {
+	throw new Error(`Invalid number in JSON input: ${n}\n`);
+    }
     let res = BigInt(n) % prime
     if (res < 0) res += prime
     return res
-- 
2.43.0


From 5457cd6c5d0e15ea73162b098af7b87814328499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 36/38] fix: do not take // and /* inside strings for comments

---
 parser/src/parser_logic.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..886daa6 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -31,6 +31,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                         pp.push(' ');
                     }
                     Some(c1) => {
+                        if c1 == '"' {
+                            state = 3;
+                        }
                         pp.push(c0);
                         pp.push(c1);
                     }
@@ -40,7 +43,18 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     }
                 }
             }
+            (0, '"') => {
+                pp.push(c0);
+                state = 3;
+            }
             (0, _) => pp.push(c0),
+            // inside a string, which ends with its line at the latest
+            (3, _) => {
+                pp.push(c0);
+                if c0 == '"' || c0 == '\n' {
+                    state = 0;
+                }
+            }
             (1, '\n') => {
                 pp.push(c0);
                 state = 0;
-- 
2.43.0


From 18089ec8e0c7b74bb8e5ca124dc4daf98057a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 37/38] fix: check the inputs of an anonymous component under
 parallel for misplaced anonymous components

---
 parser/src/syntax_sugar_remover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..737ae9b 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -268,7 +268,7 @@ pub fn check_anonymous_components_expression(
             else if rhe.is_call() && rhe.contains_anonymous_comp() {
                 return Result::Err(anonymous_general_error(meta.clone(),"An anonymous component cannot be used as a parameter in a template call ".to_string()));
             }
-            Result::Ok(())
+            check_anonymous_components_expression(rhe)
         },
     }
 }
-- 
2.43.0


From 756f0296a5bd29d25d435b99926516a22aa6d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:42 +0000
Subject: [PATCH 38/38] fix: place of an unterminated comment after characters
 of several bytes

---
 parser/src/parser_logic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 886daa6..c14eaaa 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -14,11 +14,12 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
 
     let mut it = expr.chars();
     while let Some(c0) = it.next() {
-        loc += 1;
+        loc += c0.len_utf8();
         match (state, c0) {
             (0, '/') => {
-                loc += 1;
-                match it.next() {
+                let next = it.next();
+                loc += next.map_or(0, char::len_utf8);
+                match next {
                     Some('/') => {
                         state = 1;
                         pp.push(' ');
@@ -60,13 +61,13 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                 state = 0;
             }
             (2, '*') => {
-                loc += 1;
                 let mut next = it.next();
                 while next == Some('*') {
                     pp.push(' ');
                     loc += 1;
                     next = it.next();
                 }
+                loc += next.map_or(0, char::len_utf8);
                 match next {
                     Some('/') => {
                         pp.push(' ');
-- 
2.43.0

