From 7d55db9769fa0dbfbb386a8662baba1506de02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 01/26] fix: keep bT keyed by the merged branch index when
 merging file coverage

The bT counters were looked up in the branch map after it had been renumbered
by the merge, and were renumbered on their own, so they panicked or ended up
attached to another branch.
---
 packages/istanbul-oxide/src/file_coverage.rs | 37 +++++++++++++-------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..093fd58 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -295,24 +295,37 @@ impl FileCoverage {
             &coverage.branch_map,
             |branch: &Branch| key_from_loc(&branch.locations[0]),
         );
-        self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
         if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
+            // b_t is keyed by the branch index of its own map, so this should run
+            // before the branch map is replaced with the merged, renumbered one.
+            let (branches_true_hits_merged, branches_true_map_merged) = merge_properties_hits_vec(
+                branches_true,
+                &self.branch_map,
+                coverage.b_t.as_ref().unwrap_or(&Default::default()),
+                &coverage.branch_map,
+                |branch: &Branch| key_from_loc(&branch.locations[0]),
+            );
+
+            // Not every branch have b_t, look up new index of the branch.
+            let mut renumbered: BranchHitMap = Default::default();
+            for (idx, hits) in branches_true_hits_merged {
+                let key = key_from_loc(&branches_true_map_merged[&idx].locations[0]);
+                let merged_idx = branches_map_merged
+                    .iter()
+                    .find(|(_, branch)| key_from_loc(&branch.locations[0]) == key)
+                    .map(|(idx, _)| *idx);
+
+                renumbered.insert(merged_idx.unwrap_or(idx), hits);
             }
+
+            self.b_t = Some(renumbered);
         }
+
+        self.b = branches_hits_merged;
+        self.branch_map = branches_map_merged;
     }
 
     pub fn compute_simple_totals<T>(line_map: &IndexMap<T, u32>) -> Totals {
-- 
2.43.0


From 5297356dc302998c2f94a5d05cf3e9c9b36a84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 02/26] fix: give every instrumented file its own coverage
 function

The counter function name was stored in a process-wide cell by the first file
being instrumented, so every later file in the same process reused the name
(and shared the counters when both run in one scope).
---
 .../create_coverage_fn_decl.rs                | 22 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  6 +++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..8fd16a7 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,24 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn, and a
+/// temporal ident being used for b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
+/// Each file being instrumented have its own ident, create_instrumentation_visitor macro
 /// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..fe92382 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,14 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                let (cov_fn_ident, cov_fn_temp_ident) = crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident: cov_fn_ident,
+                    cov_fn_temp_ident: cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..5e892be 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From 41b3cf7f08762c35fb40c0c9d19e87a3c0a7ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 03/26] fix: insert counters and the coverage template behind
 directives

Counters and the template were inserted in front of the directives of a
function body or script, which turned 'use strict' into a plain expression
and made strict code sloppy.
---
 .../macros/instrumentation_counter_helper.rs  | 23 ++++++++----
 .../instrumentation_stmt_counter_helper.rs    | 14 ++++++--
 .../src/macros/instrumentation_visitor.rs     | 35 +++----------------
 .../src/visitors/coverage_visitor.rs          | 27 +++++++++++---
 4 files changed, 56 insertions(+), 43 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..996f7b9 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -163,6 +163,22 @@ macro_rules! instrumentation_counter_helper {
             }));
         }
 
+        /// Insert fn counter to the top of the fn body, behind of the directives if there are any.
+        fn insert_fn_counter(&self, stmts: &mut Vec<Stmt>, counter: Expr) {
+            let index = stmts
+                .iter()
+                .take_while(|stmt| stmt.can_precede_directive())
+                .count();
+
+            stmts.insert(
+                index,
+                Stmt::Expr(ExprStmt {
+                    span: swc_core::common::DUMMY_SP,
+                    expr: Box::new(counter),
+                }),
+            );
+        }
+
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
@@ -194,12 +210,7 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    self.insert_fn_counter(&mut blockstmt.stmts, b);
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..d77c4bf 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -7,8 +7,18 @@ macro_rules! instrumentation_stmt_counter_helper {
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
             let mut new_stmts = vec![];
 
-            for mut stmt in stmts.drain(..) {
-                if !self.is_injected_counter_stmt(&stmt) {
+            // If given stmts are fn body, fn counter is already inserted behind of its directives.
+            let directives = stmts
+                .iter()
+                .take_while(|stmt| stmt.can_precede_directive())
+                .count();
+            let directives = match stmts.get(directives) {
+                Some(stmt) if self.is_injected_counter_stmt(stmt) => directives,
+                _ => 0,
+            };
+
+            for (index, mut stmt) in stmts.drain(..).enumerate() {
+                if index >= directives && !self.is_injected_counter_stmt(&stmt) {
                     let (old, ignore_current) = self.on_enter(&mut stmt);
 
                     match ignore_current {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..3db11fd 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -62,14 +62,9 @@ macro_rules! instrumentation_visitor {
                         );
 
                         // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
+                        self.insert_fn_counter(&mut block_stmt.stmts, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -470,12 +465,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -502,12 +492,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -556,12 +541,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -588,12 +568,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e892be..28700ee 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -183,8 +183,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            // do not break directives apart
+            let directives = items.iter().take_while(|i| i.directive_continue()).count();
+            let index = std::cmp::max(1, directives);
+
+            items.insert(index, ModuleItem::Stmt(coverage_template));
+            items.insert(index + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -203,6 +207,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let mut new_items = vec![];
         for mut item in items.body.drain(..) {
+            // Do not create coverage instrumentation for directives.
+            if item.directive_continue() {
+                new_items.push(item);
+                continue;
+            }
+
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
             new_items.push(item);
@@ -211,9 +221,16 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        // prepend template to the top of the code, behind of the directives
+        let directives = items
+            .body
+            .iter()
+            .take_while(|stmt| stmt.directive_continue())
+            .count();
+        items.body.insert(directives, coverage_template);
+        items
+            .body
+            .insert(directives + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From 8c26c2200607c801f11add65a7009b80de4427c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 04/26] fix: do not panic on functions without a body

TypeScript overload signatures, abstract methods and ambient functions have no
body to insert a counter to.
---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 996f7b9..c7636ec 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -182,6 +182,11 @@ macro_rules! instrumentation_counter_helper {
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
+            // Signature only declarations (i.e overloads, abstract methods in typescript) have nothing to cover.
+            if function.body.is_none() {
+                return;
+            }
+
             let (span, name) = if let Some(ident) = &ident {
                 (&ident.span, Some(ident.sym.to_string()))
             } else {
-- 
2.43.0


From ba510708af39655b297b1a3dc87ae9710e4bc0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 05/26] fix: do not insert a coverage template into nested
 namespace blocks

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 28700ee..1b1c6a8 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -132,6 +132,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             Some(node) => node == &crate::Node::Program,
             _ => false,
         };
+        let is_nested = self.nodes.len() > 1;
 
         // Articulate root by injecting Program node if visut_mut_program is not called.
         // TODO: Need to figure out why custom_js_pass doesn't hit visit_mut_program
@@ -179,6 +180,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        // Items of the typescript namespace belongs to the file does not need own template
+        if is_nested {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-- 
2.43.0


From 33d55d306c969d662dd73c0c3f355a6f652f109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 06/26] fix: do not count an ignored export const

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 1b1c6a8..078a32a 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -154,7 +154,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 }
             }
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -166,7 +166,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From 106f2fe3dd50d5e8c28c524ecb8f5c9717bfef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 07/26] fix: count and visit a tagged template initializer once

---
 .../src/macros/instrumentation_counter_helper.rs          | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index c7636ec..28d38ea 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -255,12 +255,8 @@ macro_rules! instrumentation_counter_helper {
             // Special handling for tagged template expressions (like emotion styled components)
             // to preserve the template relationship and avoid wrapping in sequence expressions
             if let Expr::TaggedTpl(_) = expr {
-                // For tagged templates, prepend statement counter instead of wrapping
-                // This preserves the template relationship
-                let span = expr.span();
-                self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
+                // For tagged templates, visit_mut_tagged_tpl prepends the statement counter
+                // instead of wrapping and visits inner expressions.
                 return;
             }
 
-- 
2.43.0


From e4b440f9f0978716951b0c1b2613e78ac809ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 08/26] fix: restore the visitor state after a logical
 expression

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 .../swc-coverage-instrument/src/visitors/logical_expr_visitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 3db11fd..61f3ac2 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -844,6 +844,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index 53fea27..a058147 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -51,6 +51,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S>
                         // This does not create new branch counter - should use parent's index instead.
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
+                        self.on_exit(old);
                     }
                     _ => {
                         // iterate as normal for non loigical expr
-- 
2.43.0


From 7b9d7f488774f8b2f60a860b73988ad4d87a071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 09/26] fix: treat operands of a logical expression as its
 leaves and visit them

---
 .../src/macros/instrumentation_counter_helper.rs | 14 +++++++++++++-
 .../src/visitors/finders.rs                      | 16 +++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 28d38ea..3998912 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -89,8 +89,21 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 );
 
                 expr.visit_mut_children_with(&mut visitor);
+                self.before.extend(visitor.before.drain(..));
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
+                // Current visitor may not be able to visit inner expr of the leaf (i.e LogicalExprVisitor).
+                let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
+                    self.source_map.clone(),
+                    self.comments.clone(),
+                    self.cov.clone(),
+                    self.instrument_options.clone(),
+                    self.nodes.clone(),
+                    should_ignore,
+                );
+                expr.visit_mut_children_with(&mut visitor);
+                self.before.extend(visitor.before.drain(..));
+
                 // Wrap it with branch counter.
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
@@ -119,7 +132,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                     // replace init with increase expr + init seq
                     *expr = paren_expr;
                 } else {
-                    expr.visit_mut_children_with(self);
                     self.replace_expr_with_branch_counter(expr, branch);
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..e6cc5fb 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -80,16 +80,18 @@ impl Visit for ExprFinder {
 pub struct LogicalExprLeafFinder(pub bool);
 
 impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
+    fn visit_expr(&mut self, expr: &Expr) {
+        match expr {
+            Expr::Paren(paren_expr) => paren_expr.expr.visit_with(self),
+            Expr::Bin(BinExpr {
+                op: BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing,
+                ..
+            }) => {
                 // short curcuit, we know it's not leaf
-                return;
+                self.0 = true;
             }
+            // A logical expr in any other kind of expr belongs to the leaf, it is not part of current expr tree.
             _ => {}
         }
-
-        bin_expr.visit_children_with(self);
     }
 }
-- 
2.43.0


From f9384bc973e0abe57e1e8a7a70a54d00600bed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 10/26] fix: keep statement counters marked in a switch
 discriminant or case test

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 61f3ac2..f4f0bfb 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -694,6 +694,7 @@ macro_rules! instrumentation_visitor {
                     );
 
                     switch_stmt.visit_mut_children_with(&mut visitor);
+                    self.before.extend(visitor.before.drain(..));
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 58d8ccbaf8118dc3d4c45f5f49b3946c46c8d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 11/26] fix: give a default argument exactly one branch path

---
 .../src/macros/instrumentation_visitor.rs             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f4f0bfb..3389622 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -875,7 +875,16 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    let hint = crate::hint_comments::lookup_hint_comments(
+                        &self.comments,
+                        Some(&assign_pat.right.span()),
+                    );
+
+                    assign_pat.left.visit_mut_with(self);
+                    if hint.as_deref() != Some("next") {
+                        assign_pat.right.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *assign_pat.right, branch);
+                    }
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 383126e2bea21ecb9b4aa086c45e3cc19bc37c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 12/26] fix: visit the object expression of a with statement

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 3389622..0c910b2 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -926,6 +926,7 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
+                    with_stmt.obj.visit_mut_with(self);
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-- 
2.43.0


From 116fc2073256a9f73bb730aa81ab90f4fb51377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 13/26] fix: visit the parameters of an arrow function

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0c910b2..c2bc93b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -54,6 +54,7 @@ macro_rules! instrumentation_visitor {
                             .cov
                             .borrow_mut()
                             .new_function(&None, &range, &body_range);
+                        arrow_expr.params.visit_mut_with(self);
                         let b = crate::create_increase_counter_expr(
                             &crate::constants::idents::IDENT_F,
                             index,
@@ -79,6 +80,7 @@ macro_rules! instrumentation_visitor {
                             .cov
                             .borrow_mut()
                             .new_function(&None, &range, &body_range);
+                        arrow_expr.params.visit_mut_with(self);
                         let b = crate::create_increase_counter_expr(
                             &crate::constants::idents::IDENT_F,
                             index,
-- 
2.43.0


From 5daaccd6641d148da9e3ad6134b1ecac979b81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 14/26] fix: give a method with a non identifier key its
 declaration range

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index c2bc93b..51f4cd8 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -418,6 +418,7 @@ macro_rules! instrumentation_visitor {
                     } else {
                         let ident = Ident {
                             sym: "anonymous".into(),
+                            span: method_prop.function.span,
                             ..Ident::dummy()
                         };
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
-- 
2.43.0


From 6079556fe6d0ca223078668cf2a89b611452736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 15/26] fix: cover class methods with a non identifier key

---
 .../src/macros/instrumentation_visitor.rs                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 51f4cd8..7049c20 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -386,6 +386,14 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = Ident {
+                            sym: "anonymous".into(),
+                            span: class_method.function.span,
+                            ..Ident::dummy()
+                        };
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
                     }
                 }
             }
-- 
2.43.0


From bcd08769af9cd2a3a07d96f306b863325fd283d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 16/26] fix: do not count inside an ignored arm of a
 conditional expression

---
 .../src/macros/instrumentation_visitor.rs                    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 7049c20..5655c22 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -242,12 +242,15 @@ macro_rules! instrumentation_visitor {
                         Some(&cond_expr.alt.span()),
                     );
 
+                    cond_expr.test.visit_mut_with(self);
+
                     if c_hint.as_deref() != Some("next") {
                         // TODO: do we need this?
                         // cond_expr.cons.visit_mut_children_with(self);
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.cons, branch);
+                        cond_expr.cons.visit_mut_with(self);
                     }
 
                     if a_hint.as_deref() != Some("next") {
@@ -256,11 +259,11 @@ macro_rules! instrumentation_visitor {
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.alt, branch);
+                        cond_expr.alt.visit_mut_with(self);
                     }
                 }
             };
 
-            cond_expr.visit_mut_children_with(self);
             self.on_exit(old);
         }
 
-- 
2.43.0


From 9accc2ebc22b83d3f697abd04cb9f6d7d1f12492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 17/26] fix: do not let coverage data close the debug comment

---
 .../src/coverage_template/create_coverage_fn_decl.rs            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 8fd16a7..13598f7 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -154,6 +154,8 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
     if attach_debug_comment {
         let coverage_data_json_str =
             serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
+        // Contents of the coverage data should not close the comment, escaped slash is same in json.
+        let coverage_data_json_str = coverage_data_json_str.replace("*/", "*\\/");
 
         // Append coverage data as stringified JSON comments at the bottom of transformed code.
         // Currently plugin does not have way to pass any other data to the host except transformed program.
-- 
2.43.0


From 64424efe037716995e448402946d69fd23aa7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 18/26] fix: count function initializers in every scope

---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 3998912..29eb227 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -316,10 +316,11 @@ macro_rules! instrumentation_counter_helper {
 
                     if let Some(parent) = parent {
                         match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
+                            // Exported declaration have its own counter
+                            crate::Node::ModuleDecl => {}
+                            _ => {
                                 self.mark_prepend_stmt_counter(&span);
                             }
-                            _ => {}
                         }
                     }
                 } else {
-- 
2.43.0


From 658c9ebaae28888b57db90a4c37ab3002e11f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 19/26] fix: respect an ignore hint in front of a block arm

---
 .../src/macros/instrumentation_visitor.rs            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 5655c22..55effdc 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -753,7 +753,11 @@ macro_rules! instrumentation_visitor {
 
                         let body = if let Stmt::Block(mut block_stmt) = stmt_body {
                             // if cons / alt is already blockstmt, insert stmt counter for each
-                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                            let (old, ignore_current) = self.on_enter(&mut block_stmt);
+                            if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
+                                self.insert_stmts_counter(&mut block_stmt.stmts);
+                            }
+                            self.on_exit(old);
 
                             let mut new_stmts = vec![expr];
                             new_stmts.extend(block_stmt.stmts.drain(..));
@@ -944,7 +948,11 @@ macro_rules! instrumentation_visitor {
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-                        self.insert_stmts_counter(&mut body_block.stmts);
+                        let (old, ignore_current) = self.on_enter(body_block);
+                        if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
+                            self.insert_stmts_counter(&mut body_block.stmts);
+                        }
+                        self.on_exit(old);
                     } else {
                         let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                             self.source_map.clone(),
-- 
2.43.0


From 5a1fae2ace883cb0a15c7d043bb622a827fad0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 20/26] fix: count a tagged template that is an arrow function
 body once

---
 .../src/macros/instrumentation_visitor.rs              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 55effdc..bb6343c 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -299,7 +299,15 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-                    self.mark_prepend_stmt_counter(&return_stmt.span);
+                    // A tagged template which is the body of an arrow fn already have own counter
+                    // for the same span, see visit_mut_tagged_tpl.
+                    let has_own_counter = matches!(
+                        return_stmt.arg.as_deref(),
+                        Some(Expr::TaggedTpl(tpl)) if tpl.span == return_stmt.span
+                    );
+                    if !has_own_counter {
+                        self.mark_prepend_stmt_counter(&return_stmt.span);
+                    }
                 }
             }
             return_stmt.visit_mut_children_with(self);
-- 
2.43.0


From 7983e16fe38258435e288f4df4a5a09df4a28ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 21/26] fix: respect an ignore hint in front of a constructor,
 private method or static block

---
 .../macros/create_instrumentation_visitor.rs  |  3 ++
 .../src/macros/instrumentation_visitor.rs     | 39 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  3 ++
 3 files changed, 45 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index fe92382..ea42f25 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -193,5 +193,8 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
+         on_enter!(Constructor);
+         on_enter!(PrivateMethod);
+         on_enter!(StaticBlock);
     }
 }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index bb6343c..26dc58a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -374,6 +374,45 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Constructor: entries(), // ignore processing only
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    constructor.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // PrivateMethod: entries(), // ignore processing only
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    private_method.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // StaticBlock: entries(), // ignore processing only
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_static_block(&mut self, static_block: &mut StaticBlock) {
+            let (old, ignore_current) = self.on_enter(static_block);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    static_block.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // ClassMethod: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_class_method(&mut self, class_method: &mut ClassMethod) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..7706ca9 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -45,6 +45,9 @@ pub enum Node {
     BlockStmt,
     AssignPat,
     TaggedTpl,
+    Constructor,
+    PrivateMethod,
+    StaticBlock,
 }
 
 impl Display for Node {
-- 
2.43.0


From 3222f171206116bf0fd546bad9c41020c51bb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 22/26] hook: read access to coverage summaries under
 cfg(verif_hooks)

---
 packages/istanbul-oxide/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..ef5c27a 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -14,3 +14,24 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+/// Read access for external verification, compiled with `--cfg verif_hooks` only.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::coverage_summary::{CoveragePercentage, CoverageSummary, Totals};
+
+    pub fn percent(covered: u32, total: u32) -> f32 {
+        crate::percent::percent(covered, total)
+    }
+
+    /// lines, statements, functions, branches and true branches of a summary
+    pub fn totals(summary: &CoverageSummary) -> (Totals, Totals, Totals, Totals, Option<Totals>) {
+        (
+            summary.lines,
+            summary.statements,
+            summary.functions,
+            summary.branches,
+            summary.branches_true,
+        )
+    }
+}
-- 
2.43.0


From 04497fc312a78cd111d518590cb557810ceb5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 23/26] fix: default values of shorthand properties in patterns
 are branches too

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 33 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 35 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index ea42f25..067d8d9 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -190,6 +190,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 26dc58a..93315df 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -955,6 +955,39 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // AssignmentPattern of a shorthand property: entries(coverAssignmentPattern),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if let Some(value) = &mut assign_pat_prop.value {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        let branch = self.cov.borrow_mut().new_branch(
+                            crate::BranchType::DefaultArg,
+                            &range,
+                            false,
+                        );
+
+                        let hint = crate::hint_comments::lookup_hint_comments(
+                            &self.comments,
+                            Some(&value.span()),
+                        );
+
+                        if hint.as_deref() != Some("next") {
+                            value.visit_mut_with(self);
+                            self.replace_expr_with_branch_counter(&mut **value, branch);
+                        }
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
         // TryStatement: entries(coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_try_stmt(&mut self, try_stmt: &mut TryStmt) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 7706ca9..f50f9b2 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -44,6 +44,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
     Constructor,
     PrivateMethod,
-- 
2.43.0


From a6798f1b578e08696b890b85d84eeb65c43bf83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 24/26] fix: string statements behind the directive prologue
 are statements

---
 .../src/visitors/coverage_visitor.rs          | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 078a32a..4e3ed5f 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -145,13 +145,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // TODO: Should module_items need to be added in self.nodes?
         let mut new_items = vec![];
-        for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
+        let directives = items.iter().take_while(|i| i.directive_continue()).count();
+        for (index, mut item) in items.drain(..).enumerate() {
+            // Do not create coverage instrumentation for directives.
+            if index < directives {
+                new_items.push(item);
+                continue;
             }
 
             let (old, ignore_current) = match &mut item {
@@ -192,7 +191,6 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         // prepend template to the top of the code
         if items.len() >= 1 {
             // do not break directives apart
-            let directives = items.iter().take_while(|i| i.directive_continue()).count();
             let index = std::cmp::max(1, directives);
 
             items.insert(index, ModuleItem::Stmt(coverage_template));
@@ -214,9 +212,14 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
 
         let mut new_items = vec![];
-        for mut item in items.body.drain(..) {
+        let directives = items
+            .body
+            .iter()
+            .take_while(|stmt| stmt.directive_continue())
+            .count();
+        for (index, mut item) in items.body.drain(..).enumerate() {
             // Do not create coverage instrumentation for directives.
-            if item.directive_continue() {
+            if index < directives {
                 new_items.push(item);
                 continue;
             }
@@ -230,11 +233,6 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code, behind of the directives
-        let directives = items
-            .body
-            .iter()
-            .take_while(|stmt| stmt.directive_continue())
-            .count();
         items.body.insert(directives, coverage_template);
         items
             .body
-- 
2.43.0


From 251a5d017247114a026665e3ee902a22651f2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 25/26] fix: directives of constructors and private methods
 stay in front and are no statements

---
 .../macros/instrumentation_counter_helper.rs  | 21 +++++++++++++++++++
 .../src/macros/instrumentation_visitor.rs     |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 29eb227..a52f48b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -191,6 +191,27 @@ macro_rules! instrumentation_counter_helper {
             );
         }
 
+        /// Take out the directives of a body which does not get fn counter, they are not statements to count.
+        fn take_directives(&self, body: &mut Option<BlockStmt>) -> Vec<Stmt> {
+            match body {
+                Some(body) => {
+                    let count = body
+                        .stmts
+                        .iter()
+                        .take_while(|stmt| stmt.can_precede_directive())
+                        .count();
+                    body.stmts.drain(..count).collect()
+                }
+                None => vec![],
+            }
+        }
+
+        fn put_directives(&self, body: &mut Option<BlockStmt>, directives: Vec<Stmt>) {
+            if let Some(body) = body {
+                body.stmts.splice(0..0, directives);
+            }
+        }
+
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 93315df..67262f2 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -381,7 +381,9 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
+                    let directives = self.take_directives(&mut constructor.body);
                     constructor.visit_mut_children_with(self);
+                    self.put_directives(&mut constructor.body, directives);
                 }
             }
             self.on_exit(old);
@@ -394,7 +396,9 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
+                    let directives = self.take_directives(&mut private_method.function.body);
                     private_method.visit_mut_children_with(self);
+                    self.put_directives(&mut private_method.function.body, directives);
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 2d7cc03b514b783d100fb2c7736bd324381a0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 26/26] fix: honour the ignore file hint behind a hashbang

---
 .../swc-coverage-instrument/src/utils/hint_comments.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/utils/hint_comments.rs b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
index 2e93123..377b538 100644
--- a/packages/swc-coverage-instrument/src/utils/hint_comments.rs
+++ b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
@@ -3,7 +3,7 @@ use regex::Regex as Regexp;
 use swc_core::{
     common::{
         comments::{Comment, Comments},
-        Span,
+        Span, Spanned,
     },
     ecma::ast::*,
 };
@@ -20,9 +20,9 @@ pub static COMMENT_RE: Lazy<Regexp> =
     Lazy::new(|| Regexp::new(r"^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)").unwrap());
 
 pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program) -> bool {
-    let pos = match &program {
-        Program::Module(module) => module.span,
-        Program::Script(script) => script.span,
+    let (pos, first_item) = match &program {
+        Program::Module(module) => (module.span, module.body.first().map(|item| item.span())),
+        Program::Script(script) => (script.span, script.body.first().map(|stmt| stmt.span())),
     };
 
     let validate_comments = |comments: &Option<Vec<Comment>>| {
@@ -40,6 +40,8 @@ pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program)
         comments.get_leading(pos.hi),
         comments.get_trailing(pos.lo),
         comments.get_trailing(pos.hi),
+        // Program starts at its hashbang if there is one, comments behind of it leads the first item.
+        first_item.and_then(|span| comments.get_leading(span.lo)),
     ]
     .iter()
     .any(|c| validate_comments(c))
-- 
2.43.0

